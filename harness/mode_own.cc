// C07: values and attributes through histories of copies, moves and changes
#include "varpool.h"
#include <wreport/subset.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <algorithm>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ALLOC 1
#endif
using namespace wreport;
using namespace vf;
using varpool::Entry;

namespace {

struct MVal { Entry e; bool isset = false; int64_t i = 0; std::string s; };
struct MVar : public MVal { std::map<Varcode, MVal> attrs; };

bool numeric(const MVal& m) { return m.e.ref.kind == ref::INT || m.e.ref.kind == ref::DEC; }

std::string show(const MVal& m) { return ref::fxy(m.e.ref.code) + "=" + (!m.isset ? "(unset)" : numeric(m) ? std::to_string(m.i) : jstr(m.s)); }
std::string show(const MVar& m) { std::string r = show((const MVal&)m); for (auto& a : m.attrs) r += " {" + show(a.second) + "}"; return r; }

std::string differs(const Var& v, const MVal& m)
{
    if (v.info() != m.e.info) return "info is of " + ref::fxy(v.code());
    if (v.isset() != m.isset) return v.isset() ? "is set" : "is unset";
    if (!m.isset) return "";
    if (numeric(m)) { if (v.enqi() != m.i) return fmt("value is %d", v.enqi()); }
    else if (v.enqs() != m.s) return "value is " + jstr(v.enqs());
    return "";
}
std::string differs(const Var& v, const MVar& m)
{
    std::string d = differs(v, (const MVal&)m);
    if (!d.empty()) return d;
    const Var* a = v.next_attr(); unsigned n = 0;
    for (auto& ma : m.attrs)
    {
        if (!a) return "attribute " + ref::fxy(ma.first) + " is missing";
        if (a->code() != ma.first) return "attribute " + ref::fxy(a->code()) + " is where " + ref::fxy(ma.first) + " should be";
        d = differs(*a, ma.second);
        if (!d.empty()) return "attribute " + ref::fxy(ma.first) + " " + d;
        const Var* q = v.enqa(ma.first);
        if (!q) return "attribute " + ref::fxy(ma.first) + " cannot be queried";
        if (q != a) return "attribute " + ref::fxy(ma.first) + " is there twice";
        a = a->next_attr(); if (++n > 1000) return "endless attributes";
    }
    if (a) return "extra attribute " + ref::fxy(a->code());
    return "";
}
bool vequal(const MVal& a, const MVal& b)
{
    if (a.isset != b.isset) return false;
    if (!a.isset) return true;
    if (numeric(a) && numeric(b))
    {
        if (a.e.ref.scale == b.e.ref.scale) return a.i == b.i;
        return varpool::unscaled(a.i, a.e.ref.scale) == varpool::unscaled(b.i, b.e.ref.scale);
    }
    if (a.e.ref.kind != b.e.ref.kind) return false;
    if (a.e.ref.kind == ref::BIN && a.e.ref.bit_len != b.e.ref.bit_len) return false;
    return a.s == b.s;
}
bool equal(const MVar& a, const MVar& b)
{
    if (a.e.ref.code != b.e.ref.code || !vequal(a, b) || a.attrs.size() != b.attrs.size()) return false;
    auto i = a.attrs.begin(), j = b.attrs.begin();
    for (; i != a.attrs.end(); ++i, ++j) if (i->first != j->first || !vequal(i->second, j->second)) return false;
    return true;
}

struct World
{
    Ctx& c; Rng& r;
    varpool::Synth synth;
    std::vector<Entry> entries, aentries;
    std::vector<std::unique_ptr<Var>> v; std::vector<MVar> m;
    std::vector<Var> seq; std::vector<MVar> mseq;
    std::string log;
    Tables* tables;

    World(Ctx& c, Tables* t) : c(c), r(c.rng), tables(t) {}

    void rnd_value(MVal& x, Var& v)
    {
        x.isset = true;
        const ref::BInfo& b = x.e.ref;
        if (numeric(x)) { x.i = r.range(std::max<int64_t>(b.imin(), -3), std::min<int64_t>(b.imax(), 3)); if (r.chance(1, 3) || b.imin() > 3 || b.imax() < -3) x.i = r.range(b.imin(), b.imax()); v.seti((int)x.i); }
        else if (b.kind == ref::STR) { x.s.clear(); for (unsigned i = 0, n = r.below(b.len + 1); i < n; ++i) x.s += "AB"[r.below(2)]; if (r.chance(1, 3)) x.s = x.s.substr(0, 1); v.setc(x.s.c_str()); }
        else { x.s.assign(b.len, 0); for (auto& ch : x.s) ch = (char)r.below(256); if (b.bit_len % 8) x.s[b.len - 1] &= (1 << (b.bit_len % 8)) - 1; v.sets(x.s); }
    }
    void mk(std::unique_ptr<Var>& v, MVar& m)
    {
        m = MVar(); m.e = r.pick(entries);
        v.reset(new Var(m.e.info));
        if (r.chance(3, 4)) rnd_value(m, *v);
    }
    // Somebody else's variable, to be used as attribute or source
    void check_all(const std::string& op)
    {
        for (size_t i = 0; i < v.size(); ++i)
        {
            std::string d = differs(*v[i], m[i]);
            if (!d.empty()) c.failstop("state:" + op.substr(0, op.find(' ')), fmt("variable %zu ", i) + d + ", expected " + show(m[i]) + ", after:" + log);
        }
        for (size_t i = 0; i < seq.size(); ++i)
        {
            std::string d = differs(seq[i], mseq[i]);
            if (!d.empty()) c.failstop("state:" + op.substr(0, op.find(' ')), fmt("element %zu ", i) + d + ", expected " + show(mseq[i]) + ", after:" + log);
        }
        c.count("states-compared", v.size() + seq.size());
    }
    const Var* some_attr(size_t j, Varcode& code)
    {
        if (m[j].attrs.empty()) return nullptr;
        auto it = m[j].attrs.begin(); std::advance(it, r.below(m[j].attrs.size()));
        code = it->first;
        return v[j]->enqa(code);
    }
    // A copy of an attribute can bring along the ones after it: it is not
    // specified, so take what was done if it is one of the two
    void sync_from_attr(MVar& dst, const Var& now, const MVar& owner, Varcode code)
    {
        MVal val = owner.attrs.at(code);
        std::map<Varcode, MVal> later;
        for (auto& a : owner.attrs) if (a.first > code) later.insert(a);
        (MVal&)dst = val;
        dst.attrs.clear();
        if (now.next_attr()) dst.attrs = later;
    }
    void step()
    {
        size_t i = r.below(v.size()), j = r.below(v.size());
        unsigned op = r.below(26);
        std::string name;
        Varcode code = 0;
        switch (op)
        {
            case 0: name = "new"; log += fmt(" new(%zu)", i); mk(v[i], m[i]); break;
            case 1: name = "copy-construct"; log += fmt(" %zu=Var(copy %zu)", i, j); if (i == j) { std::unique_ptr<Var> n(new Var(*v[j])); v[i] = std::move(n); } else { v[i].reset(new Var(*v[j])); m[i] = m[j]; } break;
            case 2: name = "move-construct"; log += fmt(" %zu=Var(move %zu)", i, j); if (i == j) break; v[i].reset(new Var(std::move(*v[j]))); m[i] = m[j]; m[j].isset = false; m[j].attrs.clear(); c.count("moved-from"); break;
            case 3: case 4: name = "copy-assign"; log += fmt(" %zu=%zu", i, j); { Var& a = *v[i]; Var& b = *v[j]; a = b; } m[i] = m[j]; if (i == j) c.count("self-assign"); break;
            case 5: case 6: name = "move-assign"; log += fmt(" %zu=move(%zu)", i, j); { Var& a = *v[i]; Var& b = *v[j]; a = std::move(b); } if (i != j) { m[i] = m[j]; m[j].isset = false; m[j].attrs.clear(); c.count("moved-from"); } else c.count("self-assign"); break;
            case 7: case 8: name = "set-value"; log += fmt(" set(%zu)", i); if (r.chance(1, 4)) { v[i]->unset(); m[i].isset = false; } else rnd_value(m[i], *v[i]); break;
            case 9: case 10: case 11:
            {
                name = "seta"; MVar am; std::unique_ptr<Var> av;
                am.e = r.pick(aentries); av.reset(new Var(am.e.info)); if (r.chance(3, 4)) rnd_value(am, *av);
                // An attribute with attributes
                if (r.chance(1, 4)) { Entry e2 = r.pick(aentries); Var x(e2.info); av->seta(x); }
                log += fmt(" seta(%zu,%s)", i, ref::fxy(am.e.ref.code).c_str());
                m[i].attrs[am.e.ref.code] = am;
                unsigned how = r.below(3);
                if (how == 0) { v[i]->seta(*av); rnd_value(am, *av); }                       // later changes do not matter
                else if (how == 1) { v[i]->seta(std::move(*av)); c.check(!av->isset() && !av->next_attr(), "moved-attr", log); rnd_value(am, *av); }
                else v[i]->seta(std::move(av));
                break;
            }
            case 12: case 13:
                name = "seta-var"; log += fmt(" seta(%zu,var %zu)", i, j);
                // A whole variable as attribute of another one, or of itself
                { MVal a = m[j]; v[i]->seta(*v[j]); m[i].attrs[a.e.ref.code] = a; if (i == j) c.count("self-attr"); }
                break;
            case 14: case 15:
            {
                name = "seta-attr";
                const Var* a = some_attr(j, code); if (!a) return;
                log += fmt(" seta(%zu,attr %s of %zu)", i, ref::fxy(code).c_str(), j);
                MVal am = m[j].attrs[code];
                v[i]->seta(*a); m[i].attrs[code] = am; if (i == j) c.count("own-attr");
                break;
            }
            case 16:
            {
                name = "assign-attr";
                const Var* a = some_attr(j, code); if (!a) return;
                log += fmt(" %zu=attr %s of %zu", i, ref::fxy(code).c_str(), j);
                MVar owner = m[j];
                *v[i] = *a;
                sync_from_attr(m[i], *v[i], owner, code);
                if (i == j) c.count("own-attr");
                break;
            }
            case 17:
            {
                name = "setval-attr";
                const Var* a = some_attr(j, code); if (!a) return;
                const MVal am = m[j].attrs[code];
                if (am.e.info != m[i].e.info) return;
                log += fmt(" setval(%zu, attr %s of %zu)", i, ref::fxy(code).c_str(), j);
                v[i]->setval(*a); m[i].isset = am.isset; m[i].i = am.i; m[i].s = am.s;
                break;
            }
            case 18:
                name = "unseta"; code = r.chance(1, 3) ? r.pick(aentries).ref.code : r.pick(entries).ref.code;
                log += fmt(" unseta(%zu,%s)", i, ref::fxy(code).c_str());
                v[i]->unseta(code); m[i].attrs.erase(code); break;
            case 19: name = "clear_attrs"; if (r.chance(2, 3)) return; log += fmt(" clear_attrs(%zu)", i); v[i]->clear_attrs(); m[i].attrs.clear(); break;
            case 20: name = "setattrs"; log += fmt(" setattrs(%zu,%zu)", i, j); v[i]->setattrs(*v[j]); { auto a = m[j].attrs; m[i].attrs = a; } break;
            case 21:
                name = "setval"; // Same entry: no conversion
                if (m[i].e.info != m[j].e.info) return;
                log += fmt(" set(%zu,%zu)", i, j);
                if (r.chance(1, 2)) v[i]->setval(*v[j]);
                else { v[i]->set(*v[j]); auto a = m[j].attrs; m[i].attrs = a; }
                m[i].isset = m[j].isset; m[i].i = m[j].i; m[i].s = std::string(m[j].s);
                break;
            case 22:
            {
                name = "retype"; // Build a variable of another type from this one
                if (numeric(m[i])) return;
                if (!m[j].isset || m[j].e.ref.kind == ref::BIN) return;
                log += fmt(" %zu=Var(info,%zu)", i, j);
                std::unique_ptr<Var> n(new Var(m[i].e.info, *v[j]));
                std::string t = numeric(m[j]) ? std::to_string(m[j].i) : m[j].s;
                MVar x; x.e = m[i].e; x.isset = true; x.s = t.substr(0, x.e.ref.len);
                if (x.e.ref.kind == ref::BIN) { bool full = t.size() >= x.e.ref.len; x.s.resize(x.e.ref.len, 0); if (full && x.e.ref.bit_len % 8) x.s[x.e.ref.len - 1] &= (1 << (x.e.ref.bit_len % 8)) - 1; }
                if (n->next_attr()) x.attrs = m[j].attrs;    // documented as dropped, kept in fact
                v[i] = std::move(n); m[i] = x;
                break;
            }
            case 23:
            {
                name = "sequence";
                unsigned k = r.below(6);
                log += fmt(" seq%u(%zu,%zu)", k, i, seq.size());
                if (k == 0 || k == 1) { seq.push_back(*v[i]); mseq.push_back(m[i]); }
                else if (k == 2) { seq.emplace_back(std::move(*v[i])); mseq.push_back(m[i]); m[i].isset = false; m[i].attrs.clear(); }
                else if (seq.empty()) break;
                else if (k == 3) { size_t p = r.below(seq.size()); seq.erase(seq.begin() + p); mseq.erase(mseq.begin() + p); }
                else if (k == 4) { size_t p = r.below(seq.size()); seq.insert(seq.begin() + p, *v[i]); mseq.insert(mseq.begin() + p, m[i]); }
                else { std::reverse(seq.begin(), seq.end()); std::reverse(mseq.begin(), mseq.end()); }
                break;
            }
            case 24:
            {
                name = "subset"; log += " subset";
                Subset s(*tables); std::vector<MVar> ms;
                for (unsigned n = r.below(6); n > 0; --n) { size_t k = r.below(v.size()); s.store_variable(*v[k]); ms.push_back(m[k]); }
                Subset s2(s), s3(*tables), s4(*tables); s3 = s2; s4 = std::move(s2);
                Subset s5(std::move(s4));
                if (!s.empty()) s.erase(s.begin()), s.clear();
                for (auto* p : {&s3, &s5})
                {
                    c.check(p->size() == ms.size(), "subset-size", log);
                    for (size_t k = 0; k < ms.size(); ++k) { std::string d = differs((*p)[k], ms[k]); c.check(d.empty(), "subset-state", d + log); }
                }
                // Move all elements to the sequence
                for (size_t k = 0; k < ms.size(); ++k) { seq.push_back(std::move(s5[k])); mseq.push_back(ms[k]); c.check(!s5[k].isset() && !s5[k].next_attr(), "moved-element", log); }
                if (seq.size() > 40) { seq.resize(20, *v[0]); mseq.resize(20); }
                break;
            }
            default: name = "swap"; if (i == j) return; log += fmt(" swap(%zu,%zu)", i, j); std::swap(*v[i], *v[j]); std::swap(m[i], m[j]);
        }
        c.count("op:" + name);
        check_all(name);
        // Equality
        i = r.below(v.size()); j = r.below(v.size());
        bool want = equal(m[i], m[j]);
        if (want && i != j) c.count("equal-pairs");
        auto eq = [&](const Var& a, const Var& b, bool w, const std::string& what) {
            c.check((a == b) == w && (b == a) == w && (a != b) == !w, "equality", what + fmt(": equality is %d/%d instead of %d, after:", a == b, b == a, w) + log);
        };
        eq(*v[i], *v[j], want, show(m[i]) + " and " + show(m[j]));
        c.check(v[i]->value_equals(*v[j]) == vequal(m[i], m[j]), "value_equals", show(m[i]) + " and " + show(m[j]) + ", after:" + log);
        if (i != j && r.chance(1, 3))
        {
            // An equal variable stops being so with one change
            Var n(*v[i]); MVar mn = m[i];
            eq(n, *v[i], true, "a copy of " + show(m[i]));
            unsigned k = r.below(3);
            if (k == 0) rnd_value(mn, n);
            else if (k == 1) { Entry e = r.pick(aentries); Var a(e.info); MVal am; am.e = e; if (r.chance(2, 3)) rnd_value(am, a); n.seta(a); mn.attrs[e.ref.code] = am; }
            else if (!mn.attrs.empty()) { Varcode cc = r.chance(1, 2) ? mn.attrs.begin()->first : mn.attrs.rbegin()->first; n.unseta(cc); mn.attrs.erase(cc); }
            eq(n, *v[i], equal(mn, m[i]), show(mn) + " and " + show(m[i]));
            c.count("equality-probes");
        }
    }
    void run()
    {
        for (unsigned n = 4; n > 0; --n) { entries.push_back(varpool::any(r, synth)); }
        entries.push_back(synth.make(r, ref::STR)); entries.push_back(synth.make(r, ref::BIN)); entries.push_back(synth.make(r, ref::DEC));
        // Same code with another type or alteration
        { Entry e = entries[r.below(entries.size())]; Entry f = synth.make(r); const_cast<_Varinfo*>(f.info)->code = e.ref.code; f.ref.code = e.ref.code;
          if (f.info->imin == f.ref.imin() && f.info->imax == f.ref.imax()) entries.push_back(f); }
        for (unsigned n = 3; n > 0; --n) aentries.push_back(r.chance(1, 3) ? r.pick(entries) : varpool::any(r, synth));
        unsigned nv = r.range(2, 5);
        v.resize(nv); m.resize(nv);
        for (unsigned i = 0; i < nv; ++i) mk(v[i], m[i]);
        unsigned steps = r.range(5, 40);
        c.count("histories");
        for (unsigned i = 0; i < steps; ++i) { if (log.size() > 3000) log = " ..." + log.substr(log.size() - 2000); step(); }
        c.distinct(fnv(log));
    }
};

Tables* tabs;
void setup(Ctx& c)
{
    varpool::setup(c);
    tabs = new Tables; tabs->load_bufr(BufrTableID(0, 0, 0, 24, 0));
}
// Entries made on demand, as their tables are moved around
void tables_case(Ctx& c)
{
    Rng& r = c.rng;
    struct Made { Varcode code; unsigned kind, n; std::string bm; };
    struct Holder { std::vector<Var> vars; std::vector<Made> made; bool loaded = false; };
    std::vector<std::unique_ptr<Tables>> t; std::vector<Holder> h;
    for (unsigned i = 0; i < 3; ++i) { t.emplace_back(new Tables); h.emplace_back(); }
    auto info = [&](unsigned i, const Made& m) -> Varinfo {
        switch (m.kind) { case 0: return t[i]->get_bitmap(m.code, m.bm); case 1: return t[i]->get_chardata(m.code, m.n); default: return t[i]->get_unknown(m.code, m.n); }
    };
    auto right = [&](const _Varinfo& v, const Made& m) {
        if (v.code != m.code) return false;
        if (m.kind == 0) return v.type == Vartype::String && v.len == m.bm.size() && v.bit_len == m.bm.size() * 8;
        if (m.kind == 1) return v.type == Vartype::String && v.len == m.n && v.bit_len == m.n * 8;
        return v.type == Vartype::Binary && v.bit_len == m.n && v.len == (m.n + 7) / 8;
    };
    std::string log;
    auto check = [&](unsigned i) {
        for (size_t k = 0; k < h[i].made.size(); ++k)
        {
            const Made& m = h[i].made[k];
            c.check(right(*h[i].vars[k].info(), m), "tables-entry", fmt("entry %u of kind %u is now %s %u;", m.code, m.kind, vartype_format(h[i].vars[k].info()->type), h[i].vars[k].info()->len) + log);
            c.check(info(i, m) == h[i].vars[k].info() || right(*info(i, m), m), "tables-entry", "asked again, it is another one;" + log);
            if (h[i].vars[k].isset()) c.check(std::string(h[i].vars[k].enqc()).size() <= h[i].vars[k].info()->len, "tables-entry", log);
            c.count("entries-checked");
        }
        c.check(t[i]->loaded() == h[i].loaded, "tables-loaded", log);
    };
    for (unsigned step = 0; step < 25; ++step)
    {
        unsigned i = r.below(3), j = r.below(3);
        switch (r.below(8))
        {
            case 0: case 1: case 2: case 3:
            {
                Made m; m.kind = r.below(3); m.n = 0;
                if (m.kind == 0) { m.code = r.chance(1, 2) ? WR_VAR(2, 22, 0) : WR_VAR(2, 23, 0); for (unsigned k = r.range(1, 30); k; --k) m.bm += r.chance(1, 2) ? '+' : '-'; }
                else if (m.kind == 1) { m.n = r.range(1, 255); m.code = WR_VAR(2, 5, m.n); }
                else { m.n = r.range(1, 255); m.code = WR_VAR(0, 48 + r.below(16), r.below(256)); }
                log += fmt(" make(%u, kind %u)", i, m.kind);
                Varinfo v = info(i, m);
                c.check(right(*v, m), "tables-entry", fmt("%01d%02d%03d kind %u;", WR_VAR_FXY(m.code), m.kind) + log);
                Var x(v); if (m.kind == 0) x.setc(m.bm.c_str()); else if (m.kind == 1) x.setc(std::string(r.range(1, m.n), 'x').c_str());
                h[i].vars.push_back(std::move(x)); h[i].made.push_back(m);
                break;
            }
            case 4:
                log += fmt(" construct(%u)", i);
                t[i].reset(new Tables(std::move(*t[i])));
                break;
            case 5:
                if (i == j) break;
                log += fmt(" assign(%u, %u)", i, j);
                h[i].vars.clear(); h[i].made.clear();
                *t[i] = std::move(*t[j]);
                h[i] = std::move(h[j]); h[j] = Holder();
                t[j].reset(new Tables);
                break;
            case 6:
                log += fmt(" clear(%u)", i);
                h[i].vars.clear(); h[i].made.clear(); h[i].loaded = false;
                t[i]->clear();
                c.check(!t[i]->btable && !t[i]->dtable && t[i]->bitmap_table.empty() && t[i]->chardata_table.empty() && t[i]->unknown_table.empty(), "tables-clear", log);
                break;
            default:
                log += fmt(" load(%u)", i);
                switch (r.below(3))
                {
                    case 0: t[i]->btable = tabs->btable; h[i].loaded = t[i]->dtable; break;
                    case 1: t[i]->dtable = tabs->dtable; h[i].loaded = t[i]->btable; break;
                    default: t[i]->load_bufr(BufrTableID(0, 0, 0, 24, 0)); h[i].loaded = true;
                }
        }
        for (unsigned k = 0; k < 3; ++k) check(k);
    }
    c.distinct(fnv(log));
    c.count("tables-histories");
}
void mode_own(Ctx& c)
{
    if (c.rng.chance(1, 20)) { tables_case(c); return; }
    if (c.rng.chance(1, 6))
    {
#ifdef HAVE_ALLOC
        Rng rs = c.rng;
        auto once = [&] { c.rng = rs; World w(c, tabs); w.run(); };
        once(); once();
        size_t before = __sanitizer_get_current_allocated_bytes();
        once(); once();
        size_t after = __sanitizer_get_current_allocated_bytes();
        c.count("leak-probes");
        if (after >= before + 2) { World* w = nullptr; (void)w; c.failstop("leak", fmt("two repetitions of a history retained %zu bytes", after - before)); }
        return;
#endif
    }
    World w(c, tabs);
    w.run();
}
Reg reg("own", mode_own, setup);
}
