// Validation of subsets against the data descriptors, and the construction
// interface of subsets (C21)
#include "crexutil.h"
#include "cmp.h"
#include "varpool.h"
#include <wreport/bulletin/dds-validator.h>
#include <wreport/error.h>
#include <wreport/notes.h>
#include <algorithm>
#include <cmath>
#include <deque>

using namespace wreport;
using vf::fmt;

namespace {

struct NullBuf : public std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullbuf; std::ostream notes_out(&nullbuf);

bool validates(const Bulletin& b, unsigned si, std::string& err)
{
    err.clear();
    try { bulletin::DDSValidator v(b, si); v.run(); return true; }
    catch (wreport::error& e) { err = e.what(); return false; }
}
bool encodes(const Bulletin& b, std::string& enc, std::string& err)
{
    try { enc = b.encode(); return true; }
    catch (wreport::error& e) { err = e.what(); return false; }
}

// Numbers that both fit the entry and the field
bool range(const ref::BInfo& x, bool bufr, int64_t& lo, int64_t& hi)
{
    lo = x.imin(); hi = x.imax();
    if (bufr)
    {
        if (!x.bit_len || x.bit_len > 32) return false;
        lo = std::max(lo, x.bit_ref);
        hi = std::min(hi, x.bit_ref + (int64_t(1) << x.bit_len) - 2);
    }
    lo = std::max<int64_t>(lo, INT32_MIN); hi = std::min<int64_t>(hi, INT32_MAX);
    return lo <= hi;
}

// Entries kept alive with the variables made of them
struct Wide { std::deque<_Varinfo> store; };

struct Subject
{
    Bulletin* b = nullptr;
    bool bufr = true;
    std::vector<ref::RSubset> es;
    std::vector<ref::Code> dd;
    std::string what;
    bool has(unsigned x) const { for (auto c : dd) if (ref::F(c) == 2 && ref::X(c) == x) return true; return false; }
    bool any_op_from(unsigned x) const { for (auto c : dd) if (ref::F(c) == 2 && ref::X(c) >= x) return true; return false; }
    // Operators inside of sequences are also there
    bool seq = false;
};

// Positions of items in the changed subset; -1 is a new one
struct Item { int orig; ref::Code code; };

// True if the changed list cannot be what the descriptors ask for
bool surely_wrong(const ref::RSubset& es, const std::vector<Item>& now)
{
    for (unsigned i = 0; ; ++i)
    {
        if (i == es.size()) return false; // something extra at the end
        if (i == now.size()) return true;
        if (now[i].code != es[i].info.code) return true;
        // A different variable in the place of another of the same code: the
        // following ones are as expected unless it drives the template
        if (now[i].orig != (int)i && (ref::F(now[i].code) != 0 || ref::X(now[i].code) == 31)) return false;
    }
}

// A copy of the variable made of an entry of the same code and scale that can hold any number
Var widened(Wide& w, const Var& v, bool bufr, int64_t val)
{
    w.store.push_back(*v.info());
    _Varinfo& i = w.store.back();
    i.imin = INT32_MIN; i.imax = INT32_MAX; i.dmin = -1e30; i.dmax = 1e30;
    i.bit_len = 32; i.bit_ref = bufr ? v.info()->bit_ref : 0; i.len = 10;
    Var res(&i, (int)val);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) { Var c(a->info()); if (a->isset()) { if (a->info()->type == Vartype::Binary || a->info()->type == Vartype::String) c.sets(a->enqs()); else c.seti(a->enqi()); } res.seta(c); }
    return res;
}

// A number the field cannot hold; false if there is none to try
bool unfit(vf::Rng& r, const ref::BInfo& i, bool bufr, int64_t& val)
{
    if (i.kind != ref::INT && i.kind != ref::DEC) return false;
    if (bufr)
    {
        if (i.bit_len >= 30 || !i.bit_len) return false;
        int64_t top = i.bit_ref + (int64_t(1) << i.bit_len) - 1; // all ones means missing
        switch (r.below(4))
        {
            case 0: val = ref::X(i.code) == 31 ? top + 1 : top; break;
            case 1: val = top + 1 + r.below(1000); break;
            case 2: val = i.bit_ref - 1; break;
            default: val = i.bit_ref - 1 - (int64_t)r.below(1000); break;
        }
    } else {
        if (i.len >= 9) return false;
        int64_t v = 1; for (unsigned k = 0; k < i.len; ++k) v *= 10;
        val = v + (r.chance(1, 2) ? 0 : r.below(v));
        if (r.chance(1, 2)) val = -val;
    }
    return val < INT32_MAX && val > INT32_MIN;
}

void must_fail(vf::Ctx& c, const Subject& s, unsigned si, const char* how, const std::string& detail, bool encoder_too)
{
    std::string err, enc;
    bool ok = validates(*s.b, si, err);
    c.check(!ok, fmt("validated:%s", how), std::string("validation succeeded: ") + how + ": " + detail + "; " + s.what);
    if (encoder_too) c.check(!encodes(*s.b, enc, err), fmt("encoded:%s", how), std::string("encoding succeeded: ") + how + ": " + detail + "; " + s.what);
    c.count(std::string("refused:") + how);
}
void must_pass(vf::Ctx& c, const Subject& s, const char* how, std::string* out = nullptr)
{
    std::string err, enc;
    for (unsigned i = 0; i < s.b->subsets.size(); ++i)
        c.check(validates(*s.b, i, err), fmt("not-validated:%s", how), fmt("validation of subset %u failed: ", i) + err + ": " + s.what);
    c.check(encodes(*s.b, enc, err), fmt("not-encoded:%s", how), "validated but not encoded: " + err + ": " + s.what);
    c.count(std::string("accepted:") + how);
    if (out) *out = enc;
}

// New reference values, with fields that are just wide enough, or one bit too narrow
void c03_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    auto b = BufrBulletin::create();
    b->edition_number = r.range(2, 4); b->master_table_version_number = r.range(14, 30);
    b->load_tables();
    const Vartable& t = *b->tables.btable;
    Varcode code = r.pick(std::vector<Varcode>{WR_VAR(0, 12, 101), WR_VAR(0, 5, 1), WR_VAR(0, 6, 1), WR_VAR(0, 10, 4), WR_VAR(0, 7, 1), WR_VAR(0, 22, 43), WR_VAR(0, 13, 11), WR_VAR(0, 11, 3)});
    bool absent = r.chance(1, 3);   // the element is not in the data
    Varinfo i = t.query(code);
    int64_t ref = i->bit_ref;
    if (!absent)
    {
        unsigned k = r.range(0, 29);
        ref = r.chance(1, 8) ? 0 : r.chance(1, 2) ? (int64_t(1) << k) - r.below(2) : r.below(int64_t(1) << k);
        if (r.chance(1, 2)) ref = -ref;
        i = t.query_altered(code, i->scale, i->bit_len, ref);
    }
    unsigned need = 1; for (uint64_t a = ref < 0 ? -ref : ref; a; a >>= 1) ++need;
    bool fits = r.chance(1, 2) || need < 2;
    unsigned bits = fits ? need + (r.chance(1, 2) ? 0 : r.below(32 - need + 1)) : r.chance(2, 3) ? need - 1 : r.range(1, need - 1);
    b->datadesc = {(Varcode)WR_VAR(2, 3, bits), code, WR_VAR(2, 3, 255)};
    unsigned n = absent ? 0 : r.range(1, 3);
    if (absent || r.chance(1, 2)) { b->datadesc.push_back(WR_VAR(1, 1, 0)); b->datadesc.push_back(WR_VAR(0, 31, 1)); b->datadesc.push_back(code); }
    else for (unsigned k = 0; k < n; ++k) b->datadesc.push_back(code);
    b->datadesc.push_back(WR_VAR(2, 3, 0));
    Subject s; s.b = b.get(); s.dd = std::vector<ref::Code>(b->datadesc.begin(), b->datadesc.end());
    for (unsigned si = 0, ns = r.range(1, 2); si < ns; ++si)
    {
        Subset& sub = b->obtain_subset(si);
        if (b->datadesc[3] == WR_VAR(1, 1, 0)) sub.store_variable_i(WR_VAR(0, 31, 1), n);
        for (unsigned k = 0; k < n; ++k)
        {
            Var v(i);
            if (r.chance(2, 3) && i->imin <= i->imax) v.seti(r.chance(1, 2) ? i->imin : std::min<int64_t>(i->imax, (int64_t)i->imin + r.below(1000)));
            sub.store_variable(std::move(v));
        }
    }
    s.what = fmt("reference value %lld in %u bits (needs %u), template%s", (long long)ref, bits, need, cmp::dds(s.dd).c_str());
    c.note(s.what); c.distinct(vf::fnv(s.what));
    if (fits)
    {
        std::string enc;
        must_pass(c, s, absent ? "c03-absent" : "c03", &enc);
        auto d = BufrBulletin::decode(enc, "c03", 0);
        for (unsigned si = 0; si < b->subsets.size(); ++si)
        {
            const Subset &x = b->subsets[si], &y = d->subsets.at(si);
            c.check(x.size() == y.size(), "c03-decoded", fmt("%zu variables instead of %zu: ", y.size(), x.size()) + s.what);
            for (unsigned k = 0; k < x.size(); ++k)
                c.check(x[k].code() == y[k].code() && x[k].isset() == y[k].isset() && (!x[k].isset() || x[k].enqi() == y[k].enqi()), "c03-decoded", cmp::show(y[k]) + " instead of " + cmp::show(x[k]) + ": " + s.what);
        }
    } else
        for (unsigned si = 0; si < b->subsets.size(); ++si) must_fail(c, s, si, absent ? "c03-absent" : "c03", "", true);
}

void validate_case(vf::Ctx& c)
{
    notes::Collect collect(notes_out);
    vf::Rng& r = c.rng;
    if (r.chance(1, 12)) { c03_case(c); return; }
    Wide wide; // outlives the bulletins
    std::unique_ptr<Bulletin> b;
    Subject s;
    bool decoded = r.chance(1, 2);
    if (r.chance(2, 3))
    {
        ref::GenOpts o; o.big = true; o.max_items = r.chance(1, 5) ? 20 : 7;
        ref::GenMsg g;
        do { g = ref::gen_bufr(r, o); } while (g.encode_ambiguous);
        s.what = fmt("BUFR edition %u, tables %u, %u subsets, template%s, message ", g.h.edition, g.h.mtv, g.subsets, cmp::dds(g.dd).c_str()) + vf::hex(g.msg, 700);
        c.note(s.what); c.distinct(g.shape);
        if (decoded) { b = BufrBulletin::decode(cmp::tight(g.msg), "gen", 0); if (b->datadesc.size() > g.dd.size()) b->datadesc.resize(g.dd.size()); }
        else b = cmp::build(g);
        s.es = g.expected; s.dd = g.dd;
    } else {
        ref::CrexMsg g = ref::gen_crex(r, true);
        s.bufr = false;
        s.what = "CREX " + vf::jstr(g.msg.substr(0, 1200));
        c.note(s.what); c.distinct(g.shape);
        if (decoded) b = CrexBulletin::decode(cmp::tight(g.msg), "gen", 0);
        else b = cmp::build(g);
        s.es = g.expected; s.dd = g.dd;
    }
    s.b = b.get();
    const char* enc_name = s.bufr ? (decoded ? "bufr-decoded" : "bufr-built") : (decoded ? "crex-decoded" : "crex-built");
    must_pass(c, s, enc_name);
    for (auto d : s.dd) if (ref::F(d) == 3) s.seq = true;

    for (unsigned round = 0; round < 3; ++round)
    {
    unsigned si = r.below(s.es.size());
    Subset& sub = b->subsets[si];
    const ref::RSubset& es = s.es[si];
    if (es.empty()) { c.count("empty-subset"); return; }
    std::vector<Var> saved(sub.begin(), sub.end());
    std::vector<Item> now;
    for (unsigned i = 0; i < es.size(); ++i) now.push_back({(int)i, es[i].info.code});
    unsigned p = r.below(es.size());
    unsigned kind = r.below(13);
    switch (kind)
    {
        case 0: // the end is missing
        {
            unsigned n = r.chance(1, 2) ? 1 : 1 + r.below(es.size());
            for (unsigned i = 0; i < n; ++i) sub.pop_back();
            must_fail(c, s, si, "end-missing", fmt("last %u of subset %u", n, si), true);
            break;
        }
        case 1: // one is missing
            sub.erase(sub.begin() + p); now.erase(now.begin() + p);
            if (surely_wrong(es, now)) must_fail(c, s, si, "one-missing", fmt("variable %u of subset %u", p, si), false);
            else c.count("not-judged");
            break;
        case 2: // one more
        case 3: // another one
        {
            std::vector<ref::Code> cand = { WR_VAR(0, 1, 1), WR_VAR(0, 12, 101), WR_VAR(0, 4, 4), WR_VAR(0, 31, 1), WR_VAR(0, 1, 11), WR_VAR(0, 20, 3) };
            for (auto& x : es) if (ref::F(x.info.code) == 0) cand.push_back(x.info.code);
            ref::Code code = r.pick(cand);
            if (code == es[p].info.code || !b->tables.btable->contains(code)) { c.count("not-judged"); break; }
            Var v(b->tables.btable->query(code));
            if (r.chance(1, 2)) for (unsigned q = 0; q < es.size(); ++q) if (es[q].info.code == code) v = saved[q];
            if (kind == 2) { sub.insert(sub.begin() + p, v); }
            else if (r.chance(1, 2) || es[p].info.kind >= ref::INT) sub[p] = v;
            else { v = saved[p]; sub[p] = Var(b->tables.btable->query(code)); }
            must_fail(c, s, si, kind == 2 ? "one-more" : "another-one", fmt("%s at %u of subset %u", ref::fxy(code).c_str(), p, si), false);
            break;
        }
        case 4: // two swapped
        {
            unsigned q = r.chance(1, 2) ? std::min<unsigned>(p + 1, es.size() - 1) : r.below(es.size());
            if (es[p].info.code == es[q].info.code) { c.count("not-judged"); break; }
            std::swap(sub[p], sub[q]);
            must_fail(c, s, si, "swapped", fmt("%u and %u of subset %u", p, q, si), false);
            break;
        }
        case 5: case 6: // a number does not fit
        {
            int64_t val;
            if (ref::F(es[p].info.code) != 0 || s.has(3) || s.seq || !unfit(r, es[p].info, s.bufr, val)) { c.count("not-judged"); break; }
            sub[p] = widened(wide, saved[p], s.bufr, val);
            must_fail(c, s, si, s.bufr ? "bufr-number" : "crex-number", fmt("%lld in %s at %u of subset %u", (long long)val, es[p].info.str().c_str(), p, si), true);
            break;
        }
        case 7: // an attribute does not fit
        {
            if (!s.bufr || s.has(4) || s.has(3) || s.seq || !s.any_op_from(22)) { c.count("not-judged"); break; }
            std::vector<std::pair<unsigned, unsigned>> cand;
            for (unsigned i = 0; i < es.size(); ++i) for (unsigned k = 0; k < es[i].attrs.size(); ++k) cand.emplace_back(i, k);
            if (cand.empty()) { c.count("not-judged"); break; }
            auto x = r.pick(cand);
            const ref::RVar& a = es[x.first].attrs[x.second];
            int64_t val;
            if (!unfit(r, a.info, true, val)) { c.count("not-judged"); break; }
            sub[x.first].seta(widened(wide, *sub[x.first].enqa(a.info.code), true, val));
            must_fail(c, s, si, "attribute-number", fmt("%lld in attribute %s of %u of subset %u", (long long)val, a.info.str().c_str(), x.first, si), true);
            break;
        }
        case 8: // an associated field does not fit
        {
            unsigned bits = 0;
            for (auto x : s.dd) if (ref::F(x) == 2 && ref::X(x) == 4) bits = std::max(bits, ref::Y(x));
            if (!s.bufr || !bits || s.any_op_from(22) || s.seq || bits > 6) { c.count("not-judged"); break; }
            bool done = false;
            for (unsigned i = 0; i < es.size() && !done; ++i)
            {
                if (es[i].attrs.size() != 1) continue;
                int64_t v = (int64_t(1) << bits) + (r.chance(1, 2) ? r.below(3) : 0);
                if (v > es[i].attrs[0].info.imax()) continue;
                sub[i].seta(Var(b->tables.btable->query(es[i].attrs[0].info.code), (int)v));
                must_fail(c, s, si, "associated-field", fmt("%lld in %u bits", (long long)v, bits), true);
                done = true;
            }
            if (!done) c.count("not-judged");
            break;
        }
        case 9: // a bitmap of the wrong length
        {
            bool fixed = false, del = s.seq || !s.bufr;
            for (unsigned i = 0; i + 1 < s.dd.size(); ++i)
                if (s.dd[i + 1] == ref::mk(0, 31, 31)) { if (ref::F(s.dd[i]) == 1 && ref::Y(s.dd[i])) fixed = true; else del = true; }
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < es.size(); ++i) if (ref::F(es[i].info.code) == 2 && ref::X(es[i].info.code) >= 22 && es[i].isset) cand.push_back(i);
            if (!fixed || del || cand.empty()) { c.count("not-judged"); break; }
            p = r.pick(cand);
            std::string bm = es[p].s;
            if (bm.size() > 1 && r.chance(1, 2)) bm.resize(bm.size() - 1); else bm += "-";
            sub[p] = Var(b->tables.get_bitmap(es[p].info.code, bm), bm);
            must_fail(c, s, si, "bitmap-length", bm + " instead of " + es[p].s, true);
            break;
        }
        case 10: // a repetition factor is larger than what follows
        {
            bool delayed = false; for (auto x : s.dd) if (ref::F(x) == 1 && ref::Y(x) == 0) delayed = true;
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < es.size(); ++i) if ((es[i].info.code == ref::mk(0, 31, 1) || es[i].info.code == ref::mk(0, 31, 2)) && es[i].isset) cand.push_back(i);
            if (!delayed || s.any_op_from(22) || s.seq || cand.empty()) { c.count("not-judged"); break; }
            p = r.pick(cand);
            int64_t val = es.size() - p + r.below(20);
            if (val > es[p].info.imax() - 1) { c.count("not-judged"); break; }
            // it may also be just a value: only those that drive repetitions matter
            if (std::count_if(s.dd.begin(), s.dd.end(), [](ref::Code x) { return x == ref::mk(0, 31, 1) || x == ref::mk(0, 31, 2); }) >
                std::count_if(s.dd.begin(), s.dd.end(), [](ref::Code x) { return ref::F(x) == 1 && ref::Y(x) == 0; })) { c.count("not-judged"); break; }
            sub[p].seti(val);
            must_fail(c, s, si, "factor-too-large", fmt("%lld at %u of subset %u", (long long)val, p, si), true);
            break;
        }
        case 11: // other contents, same structure
        {
            for (unsigned i = 0; i < es.size(); ++i)
            {
                const ref::BInfo& x = es[i].info;
                if (ref::F(x.code) != 0 || ref::X(x.code) == 31 || !r.chance(1, 3)) continue;
                if (r.chance(1, 4)) { sub[i].unset(); continue; }
                if (x.kind != ref::INT && x.kind != ref::DEC) continue;
                int64_t lo, hi;
                if (!range(x, s.bufr, lo, hi)) continue;
                sub[i].seti(r.chance(1, 2) ? (r.chance(1, 2) ? lo : hi) : r.range(lo, hi));
            }
            must_pass(c, s, "other-values");
            break;
        }
        case 12: // anything: what validates can be encoded
        {
            for (unsigned k = 0, n = 1 + r.below(3); k < n && !sub.empty(); ++k)
            {
                p = r.below(sub.size());
                switch (r.below(5))
                {
                    case 0: sub.erase(sub.begin() + p); break;
                    case 1: { Var v(sub[r.below(sub.size())]); sub.insert(sub.begin() + p, v); break; }
                    case 2: std::swap(sub[p], sub[r.below(sub.size())]); break;
                    case 3: sub[p].unset(); break;
                    case 4: { Varinfo i = sub[p].info(); if (i->type == Vartype::Integer || i->type == Vartype::Decimal) { if (i->imin <= i->imax) sub[p].seti(r.range(i->imin, i->imax)); } break; }
                }
            }
            std::string err, enc;
            bool ok = true;
            for (unsigned i = 0; i < b->subsets.size(); ++i) ok = validates(*b, i, err) && ok;
            if (ok) { c.check(encodes(*b, enc, err), "validated-not-encoded", err + ": " + s.what); c.count("random:valid"); }
            else c.count("random:invalid");
            break;
        }
    }
    // And back to where it was
    sub.erase(sub.begin(), sub.end());
    for (auto& v : saved) sub.store_variable(v);
    }
    must_pass(c, s, "restored");
}
vf::Reg r1("validate", validate_case, cmp::setup_crex);

// ------------------------------------------------------------- construction

std::string dump(const Subset& s) { std::string res; for (auto& v : s) { res += cmp::dump(v); res += "\n"; } return res; }

// One value of an element, stored in some way; `model` gets what must be there
void store_one(vf::Ctx& c, Subset& s, const ref::BInfo& x, std::vector<ref::RVar>& model)
{
    vf::Rng& r = c.rng;
    ref::RVar e; e.info = x;
    std::string how;
    if (x.kind == ref::BIN || r.chance(1, 10))
    {
        if (r.chance(1, 2)) s.store_variable_undef(x.code); else s.store_variable_undef(s.tables->btable->query(x.code));
        how = "undef";
    } else if (x.kind == ref::STR) {
        for (unsigned i = 0, n = 1 + r.below(x.len); i < n; ++i) e.s += "ABCxyz019-/."[r.below(12)];
        e.isset = true;
        switch (r.below(4))
        {
            case 0: s.store_variable(Var(s.tables->btable->query(x.code), e.s)); how = "var"; break;
            case 1: { Var v(s.tables->btable->query(x.code), e.s); s.store_variable(v); c.check(v.enqs() == e.s, "store-changed-source", x.str()); how = "var"; break; }
            case 2: { Var v(s.tables->btable->query(x.code), e.s); s.store_variable(x.code, v); how = "code-var"; break; }
            default: s.store_variable_c(x.code, e.s.c_str()); how = "c"; break;
        }
    } else {
        int64_t lo, hi;
        range(x, true, lo, hi);
        e.i = r.chance(1, 5) ? lo : r.chance(1, 4) ? hi : r.range(lo, hi);
        e.isset = true;
        switch (r.below(6))
        {
            case 0: s.store_variable_i(x.code, e.i); how = "i"; break;
            case 1: s.store_variable_d(x.code, varpool::unscaled(e.i, x.scale)); how = "d"; break;
            case 2: s.store_variable_c(x.code, fmt("%lld", (long long)e.i).c_str()); how = "c"; break;
            case 3: s.store_variable(Var(s.tables->btable->query(x.code), (int)e.i)); how = "var"; break;
            case 4:
            {
                Var v(s.tables->btable->query(x.code), (int)e.i);
                if (r.chance(1, 2) && s.tables->btable->contains(WR_VAR(0, 33, 7)))
                {
                    ref::RVar a; a.info = ref::load_bufr_b(s.tables->btable->path()).b.at(WR_VAR(0, 33, 7));
                    a.isset = true; a.i = r.below(101);
                    v.seta(Var(s.tables->btable->query(WR_VAR(0, 33, 7)), (int)a.i));
                    e.attrs.push_back(a);
                }
                s.store_variable(x.code, v); how = "code-var"; break;
            }
            default:
            {
                // from a variable with attributes, by copy
                Var v(s.tables->btable->query(x.code), (int)e.i);
                if (s.tables->btable->contains(WR_VAR(0, 33, 7)))
                {
                    ref::RVar a; a.info = ref::load_bufr_b(s.tables->btable->path()).b.at(WR_VAR(0, 33, 7));
                    a.isset = true; a.i = r.below(101);
                    v.seta(Var(s.tables->btable->query(WR_VAR(0, 33, 7)), (int)a.i));
                    e.attrs.push_back(a);
                }
                s.store_variable(v);
                how = "var-attrs";
            }
        }
    }
    model.push_back(e);
    c.count("stored:" + how);
    std::string d = s.size() == model.size() ? cmp::var(s.back(), e) : fmt("%zu variables instead of %zu", s.size(), model.size());
    c.check(d.empty(), "stored:" + how, d + " storing " + e.str());
}

void api_failures(vf::Ctx& c, Subset& s, const std::vector<ref::BInfo>& pool, const ref::TableFile& tb)
{
    vf::Rng& r = c.rng;
    std::string before = dump(s);
    size_t size = s.size();
    const ref::BInfo& x = r.pick(pool);
    bool thrown = false, judged = true;
    std::string how;
    try
    {
        switch (r.below(5))
        {
            case 0: case 1: // a code that is not there
            {
                ref::Code code; do code = r.below(0x4000); while (tb.b.count(code));
                how = "unknown-code";
                switch (r.below(5))
                {
                    case 0: s.store_variable_i(code, 1); break;
                    case 1: s.store_variable_d(code, 1); break;
                    case 2: s.store_variable_c(code, "1"); break;
                    case 3: s.store_variable_undef(code); break;
                    default: s.store_variable(code, Var(s.tables->btable->query(x.code))); break;
                }
                break;
            }
            case 2: // outside of the range
            {
                if (x.kind != ref::INT && x.kind != ref::DEC) { judged = false; break; }
                how = "out-of-range";
                int64_t v = r.chance(1, 2) ? x.imax() + 1 + r.below(10) : x.imin() - 1 - (int64_t)r.below(10);
                if (v > INT32_MAX || v < INT32_MIN) { judged = false; break; }
                switch (r.below(3))
                {
                    case 0: s.store_variable_i(x.code, v); break;
                    case 1: s.store_variable_d(x.code, varpool::unscaled(v, x.scale)); break;
                    default: s.store_variable_c(x.code, fmt("%lld", (long long)v).c_str()); break;
                }
                break;
            }
            case 3: // not a number
                if (x.kind != ref::INT && x.kind != ref::DEC) { judged = false; break; }
                how = "not-a-number"; s.store_variable_d(x.code, NAN); break;
            case 4: // too many variables in a bitmap
            {
                unsigned n = 0; for (auto& v : s) if (WR_VAR_F(v.code()) == 0) ++n;
                how = "bitmap-too-long";
                s.append_dpb(WR_VAR(2, 22, 0), n + 1 + r.below(4), WR_VAR(0, 33, 7));
                break;
            }
        }
    }
    catch (wreport::error&) { thrown = true; }
    if (!judged) return;
    c.check(thrown, "not-refused:" + how, x.str());
    c.check(s.size() == size && dump(s) == before, "failure-changed-subset:" + how, fmt("%zu variables, %zu before", s.size(), size));
    c.count("failed:" + how);
}

const std::vector<ref::BInfo>& element_pool(unsigned mtv, bool bitmaps)
{
    static std::map<std::pair<unsigned, bool>, std::vector<ref::BInfo>> cache;
    auto& res = cache[std::make_pair(mtv, bitmaps)];
    if (res.empty())
        for (auto& i : ref::wmo_bufr(mtv).b->order)
        {
            if (ref::X(i.code) == 31 || ref::X(i.code) == 33 || varpool::empty_domain(i)) continue;
            if (i.kind == ref::BIN) continue;
            if (i.kind == ref::STR && (i.bit_len % 8 || i.bit_len < 8)) continue;
            int64_t lo, hi; if (i.kind != ref::STR && (i.bit_len > 31 || !range(i, true, lo, hi))) continue;
            res.push_back(i);
        }
    return res;
}

void api_case(vf::Ctx& c)
{
    notes::Collect collect(notes_out);
    vf::Rng& r = c.rng;
    unsigned mtv = r.pick(ref::wmo_versions());
    auto& pool = element_pool(mtv, true);
    const ref::TableFile& tb = *ref::wmo_bufr(mtv).b;
    if (pool.empty()) return;
    auto b = BufrBulletin::create();
    b->edition_number = 3 + r.below(2); b->master_table_version_number = mtv; b->originating_centre = 0; b->originating_subcentre = 0;
    b->load_tables();
    if (b->tables.btable->path() != tb.path) { c.count("other-tables"); return; }
    // Elements
    unsigned nsub = 1 + r.below(3);
    if (r.chance(1, 6))
    {
        // Subsets with other tables: copies and moves take the tables along
        auto o = BufrBulletin::create();
        do o->master_table_version_number = r.pick(ref::wmo_versions()); while (o->master_table_version_number == mtv);
        o->load_tables();
        Subset x(b->tables), y(o->tables);
        const ref::BInfo& e = r.pick(pool);
        std::vector<ref::RVar> m; store_one(c, x, e, m);
        unsigned how = r.below(4);
        std::string d = dump(x);
        if (how == 0) y = x;
        else if (how == 1) { Subset z(x); y = std::move(z); }
        else if (how == 2) { Subset z(x); y = o->obtain_subset(0); o->subsets[0] = z; y = o->subsets[0]; }
        else { o->obtain_subset(0); std::vector<Subset> v(3, o->subsets[0]); v[1] = x; v.erase(v.begin()); v.insert(v.begin(), y); y = v[1]; }
        c.check(y.tables == &b->tables && dump(y) == d, "assigned-subset", fmt("how %u: ", how) + dump(y) + " instead of " + d);
        // Stored according to the right tables
        store_one(c, y, r.pick(pool), m);
        c.count("subset-assigned");
    }
    std::vector<ref::BInfo> el;
    unsigned nel = r.chance(1, 30) ? 150 + r.below(100) : 1 + r.below(12);
    for (unsigned i = 0; i < nel; ++i) el.push_back(r.pick(pool));
    for (auto& i : el) b->datadesc.push_back(i.code);
    std::string what = fmt("tables %u, elements", mtv); for (auto& i : el) what += " " + ref::fxy(i.code);
    // Optional bitmap part
    unsigned op = r.below(4); // 0: none 1: quality 2: substituted 3: quality with another attribute
    if (!tb.b.count(WR_VAR(0, 33, 7)) || !tb.b.count(WR_VAR(0, 33, 3)) || !tb.b.count(WR_VAR(0, 1, 31)) || !tb.b.count(WR_VAR(0, 31, 31)) || !tb.b.count(WR_VAR(0, 31, 2))) op = 0;
    if (op == 2) for (auto& i : el) if (i.kind == ref::STR) op = 1;
    ref::Code ccode = op == 2 ? WR_VAR(2, 23, 0) : WR_VAR(2, 22, 0);
    ref::Code acode = op == 3 ? WR_VAR(0, 33, 3) : WR_VAR(0, 33, 7);
    bool fixed_dpb = op && r.chance(1, 4), delayed_bm = r.chance(1, 2), with_centre = r.chance(1, 2);
    // With several subsets the counts may be different only with delayed repetitions
    if (op)
    {
        b->datadesc.push_back(ccode);
        if (delayed_bm) { b->datadesc.push_back(WR_VAR(1, 1, 0)); b->datadesc.push_back(WR_VAR(0, 31, 2)); }
        else b->datadesc.push_back(WR_VAR(1, 1, nel));
        b->datadesc.push_back(WR_VAR(0, 31, 31));
        if (with_centre) b->datadesc.push_back(WR_VAR(0, 1, 31));
        b->datadesc.push_back(WR_VAR(1, 1, 0)); b->datadesc.push_back(WR_VAR(0, 31, 2));
        b->datadesc.push_back(op == 2 ? WR_VAR(2, 23, 255) : acode);
        what += fmt(", %s%s bitmap%s", ref::fxy(ccode).c_str(), fixed_dpb ? " all present" : "", delayed_bm ? " delayed" : "");
    }
    c.note(what); c.distinct(vf::fnv(what));
    std::vector<std::vector<ref::RVar>> model(nsub);
    if (r.chance(1, 2)) b->obtain_subset(nsub - 1);
    for (unsigned k = 0; k < nsub; ++k)
    {
        unsigned si = k;
        Subset& s = b->obtain_subset(si);
        auto& m = model[si];
        c.check(s.empty(), "new-subset-not-empty", what);
        for (auto& i : el)
        {
            store_one(c, s, i, m);
            if (r.chance(1, 3)) api_failures(c, s, pool, tb);
        }
        // Attributes left from storing are not wanted here
        for (unsigned i = 0; i < m.size(); ++i) { m[i].attrs.clear(); s[i].clear_attrs(); }
        if (!op) continue;
        std::string bm;
        unsigned want = 0;
        for (unsigned i = 0; i < nel; ++i)
        {
            bool on = fixed_dpb || r.chance(1, 2);
            bm += on ? '+' : '-';
            if (!on)
            {
                // an attribute that is not the one
                if (r.chance(1, 4) && op == 1) s[i].seta(Var(b->tables.btable->query(WR_VAR(0, 33, 3)), 1));
                continue;
            }
            ++want;
            ref::RVar a; a.isset = true;
            if (op == 2) { a.info = el[i]; int64_t lo, hi; range(el[i], true, lo, hi); a.i = r.range(lo, hi); }
            else { a.info = tb.b.at(acode); int64_t lo, hi; range(a.info, true, lo, hi); a.i = r.range(lo, hi); }
            s[i].seta(Var(b->tables.btable->query(a.info.code), (int)a.i));
            m[i].attrs.push_back(a);
        }
        size_t n0 = s.size();
        unsigned how = r.below(3);
        if (op == 2 && !fixed_dpb) how = 2; // attributes have different codes
        if (op == 2 && fixed_dpb) how = 1;
        if (how == 0)
        {
            int got = s.append_dpb(ccode, nel, acode);
            c.check(got == (int)want, "append_dpb-count", fmt("%d instead of %u: ", got, want) + what);
            c.count("append_dpb");
        }
        else if (how == 1 && fixed_dpb) { s.append_fixed_dpb(ccode, nel); c.count("append_fixed_dpb"); }
        else { s.store_variable(Var(b->tables.get_bitmap(ccode, bm), bm)); c.count("bitmap-variable"); }
        c.check(s.size() == n0 + 1 && s.back().code() == ccode && s.back().isset() && s.back().info()->len == nel && std::string(s.back().enqc()) == bm, "bitmap",
            (s.size() == n0 + 1 && s.back().isset() ? std::string(s.back().enqc()) : "?") + " instead of " + bm + ": " + what);
        if (r.chance(1, 4))
        {
            // a shorter one, somewhere else: looks at the first variables, skipping bitmaps
            unsigned n = 1 + r.below(nel);
            unsigned cnt = s.append_dpb(WR_VAR(2, 24, 0), n, acode), exp = 0;
            std::string e;
            for (unsigned i = 0; i < n; ++i) { e += s[i].enqa(acode) ? '+' : '-'; exp += s[i].enqa(acode) ? 1 : 0; }
            c.check(cnt == exp && std::string(s.back().enqc()) == e, "bitmap-prefix", std::string(s.back().enqc()) + " instead of " + e + ": " + what);
            s.pop_back();
            c.count("append_dpb-prefix");
        }
        if (r.chance(1, 4))
        {
            // More special variables and more elements: only elements count
            size_t n1 = s.size();
            unsigned more = 1 + r.below(5), els = 0;
            for (unsigned k = 0; k < more; ++k)
            {
                if (r.chance(3, 5)) { if (r.chance(1, 2)) s.append_fixed_dpb(WR_VAR(2, 24, 0), 1 + r.below(4)); else s.append_dpb(WR_VAR(2, 24, 0), 1 + r.below(nel), acode); }
                else
                {
                    s.store_variable_i(WR_VAR(0, 31, 2), r.below(100)); ++els;
                    if (r.chance(1, 2)) s[s.size() - 1].seta(Var(b->tables.btable->query(acode), 1));
                }
            }
            unsigned tot = nel + els, n = r.chance(1, 2) ? tot : 1 + r.below(tot), exp = 0;
            std::string e;
            for (size_t i = 0; e.size() < n; ++i) if (WR_VAR_F(s[i].code()) == 0) { bool on = s[i].enqa(acode); e += on ? '+' : '-'; exp += on; }
            unsigned cnt = s.append_dpb(ccode, n, acode);
            c.check(cnt == exp && s.back().code() == ccode && std::string(s.back().enqc()) == e, "bitmap-skipping", std::string(s.back().enqc()) + " instead of " + e + ": " + what);
            while (s.size() > n1) s.pop_back();
            c.count("append_dpb-skipping");
        }
        if (r.chance(1, 3)) api_failures(c, s, pool, tb);
        ref::RVar bv; bv.info.code = ccode; bv.info.kind = ref::STR; bv.isset = true; bv.s = bm; m.push_back(bv);
        if (with_centre) { ref::RVar v; v.info = tb.b.at(WR_VAR(0, 1, 31)); v.isset = true; v.i = r.below(100); s.store_variable_i(v.info.code, v.i); m.push_back(v); }
        { ref::RVar v; v.info = tb.b.at(WR_VAR(0, 31, 2)); v.isset = true; v.i = want; s.store_variable_i(v.info.code, v.i); m.push_back(v); }
    }
    // Subsets that are not there
    bool thrown = false;
    const Bulletin& cb = *b;
    try { cb.subset(nsub + r.below(3)); } catch (wreport::error&) { thrown = true; }
    c.check(thrown, "subset-out-of-range", what);
    c.check(b->subsets.size() == nsub, "subset-count", fmt("%zu instead of %u: ", b->subsets.size(), nsub) + what);
    // Same contents after all of that, and after encoding
    auto compare = [&](const Bulletin& x, const char* when) {
        c.check(x.subsets.size() == nsub, std::string("contents:") + when, fmt("%zu subsets: ", x.subsets.size()) + what);
        for (unsigned k = 0; k < nsub; ++k)
        {
            const Subset& s = x.subsets[k];
            c.check(s.size() == model[k].size(), std::string("contents:") + when, fmt("%zu variables instead of %zu: ", s.size(), model[k].size()) + what);
            for (unsigned i = 0; i < s.size(); ++i)
            {
                const ref::RVar& m = model[k][i];
                if (ref::F(m.info.code) == 2)
                {
                    c.check(s[i].code() == m.info.code && s[i].isset() && std::string(s[i].enqc()) == m.s, std::string("contents:") + when, fmt("bitmap %u of subset %u: ", i, k) + what);
                    continue;
                }
                ref::RVar y = m;
                std::string d;
                if (s[i].next_attr() && y.attrs.empty()) { Var v(s[i]); v.clear_attrs(); d = x.subsets.data() == b->subsets.data() ? cmp::var(v, y) : cmp::var(s[i], y); }
                else d = cmp::var(s[i], y);
                c.check(d.empty(), std::string("contents:") + when, fmt("variable %u of subset %u: ", i, k) + d + ": " + what);
                c.count("vars-compared"); c.count("attrs-compared", m.attrs.size());
            }
        }
    };
    compare(*b, "built");
    std::string err, enc;
    for (unsigned k = 0; k < nsub; ++k) c.check(validates(*b, k, err), "built-not-validated", err + ": " + what);
    c.check(encodes(*b, enc, err), "built-not-encoded", err + ": " + what);
    auto b2 = BufrBulletin::decode(cmp::tight(enc), "api", 0);
    compare(*b2, "decoded");
    c.count(op ? "roundtrip-bitmap" : "roundtrip");
    // Cleared bulletins are as good as new
    if (r.chance(1, 4))
    {
        std::unique_ptr<Bulletin> used, fresh;
        if (r.chance(1, 3))
        {
            fresh = CrexBulletin::create();
            auto x = CrexBulletin::create();
            x->edition_number = 1 + r.below(100); x->master_table_version_number = r.below(100); x->master_table_version_number_bufr = r.below(100); x->master_table_version_number_local = r.below(100); x->has_check_digit = true;
            x->subsets = std::move(b2->subsets); x->datadesc = b2->datadesc; x->tables = std::move(b2->tables);
            used = std::move(x);
        } else {
            fresh = BufrBulletin::create();
            b2->compression = r.chance(1, 2); b2->optional_section = "something"; b2->master_table_version_number_local = r.below(256);
            used = std::move(b2);
        }
        used->fname = "used"; used->offset = 1 + r.below(1000); used->master_table_number = 1 + r.below(255);
        used->data_category = r.below(256); used->data_subcategory = r.below(256); used->data_subcategory_local = r.below(256);
        used->originating_centre = r.below(65536); used->originating_subcentre = r.below(65536); used->update_sequence_number = r.below(256);
        used->rep_year = 1 + r.below(65535); used->rep_month = r.below(256); used->rep_day = r.below(256); used->rep_hour = r.below(256); used->rep_minute = r.below(256); used->rep_second = r.below(256);
        used->clear();
        c.check(cmp::dump(*used) == cmp::dump(*fresh) && used->fname.empty() && used->offset == 0, "cleared", "after clear(): " + cmp::dump(*used) + "instead of " + cmp::dump(*fresh));
        c.count("cleared");
    }
}
vf::Reg r2("subset_api", api_case, varpool::setup);

}
