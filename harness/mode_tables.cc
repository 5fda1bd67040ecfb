// C10: table B files, alterations and locally generated entries
// C11: table D files, opcode sequences, interpretation of descriptor lists
#include "cmp.h"
#include "varpool.h"
#include <wreport/opcodes.h>
#include <wreport/error.h>
#include <wreport/bulletin/interpreter.h>
#include <algorithm>
#include <climits>
#include <cmath>
#include <unistd.h>
#include <sys/stat.h>
using namespace wreport;
using ref::Code;
using vf::fmt;

namespace {

std::string scratch()
{
    static std::string d;
    if (d.empty())
    {
        const char* t = getenv("TMPDIR");
        d = fmt("%s/tables-%d", t ? t : "/tmp", (int)getpid());
        mkdir(d.c_str(), 0700);
    }
    return d;
}
void put(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(data.data(), 1, data.size(), f) != data.size()) throw std::runtime_error("cannot write " + path);
    fclose(f);
}
struct Temp
{
    std::string path;
    Temp(vf::Ctx& c, const char* prefix, const std::string& data)
    {
        static unsigned n = 0;
        path = fmt("%s/%s%llu-%u.txt", scratch().c_str(), prefix, (unsigned long long)c.case_no, n++);
        put(path, data);
    }
    ~Temp() { unlink(path.c_str()); }
};

std::string pad(std::string s, size_t n) { size_t l = ref::utf8_len(s); if (l < n) s.append(n - l, ' '); else s.resize(ref::utf8_col(s, n)); return s; }
std::string rpad(const std::string& s, size_t n) { return s.size() >= n ? s : std::string(n - s.size(), ' ') + s; }

const char* const units[] = {"K", "M/S", "CODE TABLE", "CODETABLE 3", "CODE TABLE 20011", "FLAG TABLE", "FLAGTABLE 1", "NUMERIC", "PA", "DEGREE TRUE", "%", "CCITTIA5",
    "ABCDEFGHIJKLMNOPQRSTUVW", "CODE", "FLAG", "CCITTIA", "CCITT IA5", "CHARACTER", "C", "KG/(M**2)S", "DEGREE", "\u2030", "\u00b0C", "\u039cMOL KG-1", "\u00b5g/m\u00b3 (\u00b1 5 \u2030 dry air)"};

std::string number(vf::Rng& r, int64_t v, size_t width)
{
    std::string d = std::to_string(v < 0 ? -v : v);
    std::string s = v < 0 ? "-" + d : d;
    if (v < 0 && s.size() < width && r.chance(1, 3)) s = "-" + std::string(width - s.size(), ' ') + d;
    return rpad(s, width);
}
std::string rtext(vf::Rng& r, size_t max)
{
    size_t n = r.chance(1, 8) ? max : r.below(max + 1);
    std::string s;
    for (size_t i = 0; i < n; ++i) s += "ABCDEFGHIJ KLMNOPQRSTUVWXYZ0123456789()-/%&"[r.below(43)];
    while (!s.empty() && s.back() == ' ') s.pop_back();
    // Some tables have text outside ASCII
    if (!s.empty() && r.chance(1, 6))
        for (unsigned i = 0, k = r.range(1, 6); i < k; ++i)
        {
            size_t p = ref::utf8_col(s, r.below(ref::utf8_len(s)));
            s.replace(p, ref::utf8_col(s.substr(p), 1), r.pick(std::vector<std::string>{"\u00b0", "\u00e9", "\u2030", "\u03bc", "\u2013"}));
        }
    return s;
}

// What the library must say about an entry
std::string check_entry(const _Varinfo& i, const ref::BInfo& e, bool bufr)
{
    std::string d = cmp::info(i, e, bufr);
    if (!d.empty()) return d;
    std::string c = ref::fxy(e.code);
    if (std::string(i.desc, strnlen(i.desc, sizeof(i.desc))) != ref::utf8_cut(e.desc, 63) && std::string(i.desc) != [&]{ std::string s = ref::utf8_cut(e.desc, 63); while (!s.empty() && s.back() == ' ') s.pop_back(); return s; }())
        return fmt("%s: description is %s instead of %s", c.c_str(), vf::jstr(i.desc).c_str(), vf::jstr(e.desc).c_str());
    if (std::string(i.unit, strnlen(i.unit, sizeof(i.unit))) != ref::utf8_cut(e.unit, 23))
        return fmt("%s: unit is %s instead of %s", c.c_str(), vf::jstr(i.unit).c_str(), vf::jstr(e.unit).c_str());
    if (!bufr && (i.bit_len || i.bit_ref)) return fmt("%s: CREX entry has binary width %u and reference %d", c.c_str(), i.bit_len, i.bit_ref);
    if ((e.kind == ref::INT || e.kind == ref::DEC) && !varpool::empty_domain(e))
    {
        if (i.imin != e.imin() || i.imax != e.imax())
            return fmt("%s: range is %d..%d instead of %lld..%lld", e.str().c_str(), i.imin, i.imax, (long long)e.imin(), (long long)e.imax());
        double lo = varpool::unscaled(e.imin(), e.scale), hi = varpool::unscaled(e.imax(), e.scale);
        if (fabs(i.dmin - lo) > fabs(lo) * 1e-12 || fabs(i.dmax - hi) > fabs(hi) * 1e-12)
            return fmt("%s: real range is %.15g..%.15g instead of %.15g..%.15g", e.str().c_str(), i.dmin, i.dmax, lo, hi);
    }
    return "";
}

struct Key { Code code; int scale; unsigned bits; int ref; bool operator<(const Key& o) const { return std::tie(code, scale, bits, ref) < std::tie(o.code, o.scale, o.bits, o.ref); } };
struct Given { Varinfo p; ref::BInfo e; };

// Whole-table monitor, with memory of every entry the table gave out
struct TableMon
{
    vf::Ctx& c;
    const Vartable* t; const ref::TableFile& f; bool bufr;
    std::map<Code, Varinfo> base;
    std::map<Key, Given> alts;
    TableMon(vf::Ctx& c, const Vartable* t, const ref::TableFile& f, bool bufr) : c(c), t(t), f(f), bufr(bufr) {}

    std::string where() { return f.path.substr(f.path.rfind('/') + 1) + (bufr ? " as BUFR: " : " as CREX: "); }
    void lookup(const ref::BInfo& e)
    {
        c.check(t->contains(e.code), "entry-missing", where() + ref::fxy(e.code) + " is in the file but contains() is false");
        Varinfo i = t->query(e.code);
        std::string d = check_entry(*i, e, bufr);
        c.check(d.empty(), "entry-differs", where() + d);
        auto b = base.emplace(e.code, i);
        c.check(b.first->second == i, "entry-moved", where() + ref::fxy(e.code) + " is at a different address than before");
        c.count("entries");
    }
    void absent(Code code)
    {
        c.check(!t->contains(code), "entry-invented", where() + ref::fxy(code) + " is not in the file but contains() is true");
        bool thrown = false;
        try { t->query(code); } catch (error_notfound&) { thrown = true; }
        c.check(thrown, "entry-invented", where() + ref::fxy(code) + " is not in the file but query() did not fail");
        thrown = false;
        try { t->query_altered(code, 1, 8, 0); } catch (error_notfound&) { thrown = true; }
        c.check(thrown, "entry-invented", where() + ref::fxy(code) + " is not in the file but query_altered() did not fail");
        c.count("absent");
    }
    void all()
    {
        for (auto& e : f.order) lookup(e);
        auto probe = [&](unsigned code) { if (code < 65536 && !f.b.count(code)) absent(code); };
        if (!f.order.empty())
        {
            probe(f.order.front().code - 1u); probe(f.order.back().code + 1u);
            for (int i = 0; i < 12; ++i) { unsigned k = f.order[c.rng.below(f.order.size())].code; probe(k - 1); probe(k + 1); probe(k ^ (1 << c.rng.below(16))); }
        }
        for (int i = 0; i < 10; ++i) probe(c.rng.below(65536));
    }
    void iterate()
    {
        std::vector<Varinfo> seen;
        c.check(t->iterate([&](Varinfo i) { seen.push_back(i); return true; }), "iterate", where() + "complete iteration returns false");
        size_t pos = 0;
        for (auto& e : f.order)
        {
            c.check(pos < seen.size() && seen[pos]->code == e.code, "iterate", where() + "iteration does not give " + ref::fxy(e.code) + " in its place");
            std::string d = check_entry(*seen[pos], e, bufr);
            c.check(d.empty(), "iterate", where() + "iteration: " + d);
            ++pos;
            // Alterations requested so far may follow
            while (pos < seen.size() && seen[pos]->code == e.code) ++pos;
        }
        c.check(pos == seen.size(), "iterate", where() + "iteration gives more entries than the file");
        c.count("iterations");
        if (seen.empty()) return;
        size_t stop = c.rng.below(seen.size()), n = 0;
        bool res = t->iterate([&](Varinfo) { return n++ < stop; });
        c.check(!res && n == stop + 1, "iterate-stop", where() + fmt("stopped iteration called %zu times instead of %zu and returned %d", n, stop + 1, (int)res));
    }
    Varinfo alter(Code code, int scale, unsigned bits, int refv)
    {
        const ref::BInfo& b = f.b.at(code);
        std::string what = where() + fmt("%s altered to scale %d, %u bits, reference %d: ", ref::fxy(code).c_str(), scale, bits, refv);
        bool same = b.scale == scale && b.bit_len == bits && b.bit_ref == refv;
        ref::BInfo want;
        bool ok = true;
        if (same) want = b;
        else if (b.kind == ref::STR) { want = b; want.scale = scale; want.bit_len = bits; want.bit_ref = refv; want.len = bits / 8; }
        else
        {
            if (scale < -16 || scale > 16 || bits > 32 || bits < 1) ok = false;
            else { want = b; want.scale = scale; want.bit_len = bits; want.bit_ref = refv; want.kind = scale ? ref::DEC : ref::INT;
                   want.len = 0; uint64_t v = (uint64_t(1) << bits) - 1; while (v) { ++want.len; v /= 10; } }
        }
        Varinfo i;
        try { i = t->query_altered(code, scale, bits, refv); }
        catch (error_consistency& e)
        {
            c.check(!ok, "alteration-refused", what + e.what());
            c.count("alterations-refused");
            return Varinfo();
        }
        c.check(ok, "alteration-accepted", what + "an entry that cannot exist was given");
        std::string d = check_entry(*i, want, true);
        c.check(d.empty(), "alteration-differs", what + d);
        if (same) c.check(i == t->query(code), "alteration-of-base", what + "asking for the entry as it is does not give the entry itself");
        auto g = alts.emplace(Key{code, scale, bits, refv}, Given{i, want});
        c.check(g.first->second.p == i, "alteration-moved", what + "the same request gave a different object");
        c.count(g.second ? "alterations" : "alterations-again");
        return i;
    }
    // Everything given out so far is still as it was
    void recheck(size_t max)
    {
        size_t n = 0;
        for (auto& a : alts)
        {
            std::string d = check_entry(*a.second.p, a.second.e, true);
            c.check(d.empty(), "alteration-changed", where() + "after other requests, " + d);
            if (++n >= max) break;
        }
        c.count("rechecks", n);
        n = 0;
        for (auto& b : base)
        {
            std::string d = check_entry(*b.second, f.b.at(b.first), bufr);
            c.check(d.empty(), "entry-changed", where() + "after alterations, " + d);
            if (++n >= max) break;
        }
        c.count("rechecks", n);
    }
};

struct BFile { std::string text; std::vector<std::string> lines; ref::TableFile f; };
BFile gen_b(vf::Rng& r, bool bufr)
{
    BFile res;
    std::set<Code> codes;
    unsigned n = r.chance(1, 10) ? 1 : r.range(1, 40);
    while (codes.size() < n) codes.insert(r.chance(1, 3) ? ref::mk(0, 1, r.below(12)) : r.chance(1, 6) ? ref::mk(0, 31, r.below(50)) : ref::mk(0, r.below(64), r.below(256)));
    bool crlf = false;
    for (Code code : codes)
    {
        ref::BInfo e; e.code = code;
        e.desc = rtext(r, 64);
        std::string bu = r.pick(std::vector<std::string>(std::begin(units), std::end(units)));
        int bscale = r.chance(1, 2) ? 0 : r.range(-16, 16);
        int64_t bref = r.chance(1, 2) ? 0 : r.chance(1, 3) ? -r.range(0, 2147483647) : r.range(-100000, 100000);
        unsigned bits = bu == "CCITTIA5" ? 8 * r.range(1, 64) : r.range(1, 32);
        if (bu == "CCITTIA5") { bscale = 0; bref = 0; }
        std::string l = " ";
        l += bufr ? '0' : 'B';
        l += fmt("%02u%03u ", ref::X(code), ref::Y(code));
        l += pad(e.desc, 64) + " ";
        l += pad(bu, 24) + " " + number(r, bscale, 3) + " " + number(r, bref, 12) + " " + number(r, bits, 3);
        if (bufr)
        {
            e.unit = bu;
            e.scale = bscale; e.bit_ref = bref; e.bit_len = bits;
            e.kind = bu == "CCITTIA5" ? ref::STR : bscale ? ref::DEC : ref::INT;
            if (e.kind == ref::STR) e.len = bits / 8;
            else { uint64_t v = (uint64_t(1) << bits) - 1; e.len = 0; while (v) { ++e.len; v /= 10; } }
            if (r.chance(1, 3)) l += " " + pad("K", 24) + "     0     3";
        }
        else
        {
            if (ref::X(code) == 31 && r.chance(1, 2)) { res.lines.push_back(l); res.text += l + "\n"; continue; } // no CREX part
            std::string cu = r.chance(1, 4) ? "CHARACTER" : r.pick(std::vector<std::string>(std::begin(units), std::end(units)));
            e.unit = cu; e.scale = cu == "CHARACTER" ? 0 : r.chance(1, 2) ? 0 : r.range(-16, 16);
            e.len = cu == "CHARACTER" ? r.range(1, 99) : r.range(1, 10);
            e.kind = cu == "CHARACTER" ? ref::STR : e.scale ? ref::DEC : ref::INT;
            l = pad(l, 119) + pad(cu, 24) + number(r, e.scale, 6) + " " + number(r, e.len, 8);
        }
        auto st = [&](const char* p) { return e.unit.compare(0, strlen(p), p) == 0; };
        if (st("CODE TABLE") || st("CODETABLE")) e.unit = "CODE TABLE";
        else if (st("FLAG TABLE") || st("FLAGTABLE")) e.unit = "FLAG TABLE";
        (void)crlf;
        res.lines.push_back(l);
        res.text += l + "\n";
        res.f.order.push_back(e);
        res.f.b[e.code] = e;
    }
    return res;
}

const Vartable* load(bool bufr, const std::string& p) { return bufr ? Vartable::load_bufr(std::filesystem::path(p)) : Vartable::load_crex(std::filesystem::path(p)); }

void alteration_history(vf::Ctx& c, TableMon& m, unsigned steps)
{
    vf::Rng& r = c.rng;
    if (m.f.order.empty()) return;
    std::vector<Code> some;
    for (int i = 0; i < 4; ++i) some.push_back(m.f.order[r.below(m.f.order.size())].code);
    for (unsigned s = 0; s < steps; ++s)
    {
        if (!m.alts.empty() && r.chance(1, 3))
        {
            auto i = m.alts.begin(); std::advance(i, r.below(m.alts.size()));
            m.alter(i->first.code, i->first.scale, i->first.bits, i->first.ref);
            continue;
        }
        const ref::BInfo& b = m.f.b.at(r.pick(some));
        int scale = b.scale; unsigned bits = b.bit_len; int64_t refv = b.bit_ref;
        if (r.chance(1, 2)) scale = r.chance(1, 8) ? r.range(-40, 40) : std::max<int64_t>(-16, std::min<int64_t>(16, b.scale + r.range(-2, 2)));
        if (r.chance(1, 2)) bits = b.kind == ref::STR ? 8 * r.range(1, 200) : r.chance(1, 8) ? r.range(0, 70) : std::max<int64_t>(1, std::min<int64_t>(32, b.bit_len + r.range(-2, 2)));
        if (r.chance(1, 3)) refv = r.chance(1, 2) ? b.bit_ref + r.range(-2, 2) : r.range(-2000000000, 2000000000);
        if (refv < INT_MIN || refv > INT_MAX) refv = 0;
        if (b.kind == ref::STR && scale != b.scale && r.chance(3, 4)) scale = b.scale;
        m.alter(b.code, scale, bits, refv);
        if (r.chance(1, 8)) { m.lookup(m.f.b.at(r.pick(some))); m.recheck(20); }
    }
    m.recheck(1000);
    m.iterate();
}

void local_entries(vf::Ctx& c)
{
    // Entries for bitmaps, character data and unknown local descriptors
    vf::Rng& r = c.rng;
    Tables t;
    struct G { Varinfo p; Code code; int kind; unsigned n; std::string key; };
    std::vector<G> given;
    std::map<std::string, Varinfo> memo;
    for (unsigned i = 0, n = r.range(2, 30); i < n; ++i)
    {
        G g; g.kind = r.below(3); g.n = r.range(1, 40);
        switch (g.kind)
        {
            case 0: {
                g.code = r.pick(std::vector<Code>{ref::mk(2, 22, 0), ref::mk(2, 23, 0)});
                std::string bm; for (unsigned k = 0; k < g.n % 4 + 1; ++k) bm += r.chance(1, 2) ? '+' : '-';
                g.n = bm.size();
                g.p = t.get_bitmap(g.code, bm); g.key = fmt("bitmap %s %s", ref::fxy(g.code).c_str(), bm.c_str()); break; }
            case 1: g.n = r.range(1, 6); g.code = ref::mk(2, 5, g.n); g.p = t.get_chardata(g.code, g.n); g.key = fmt("chardata %u", g.n); break;
            default: g.n = r.range(1, 6); g.code = ref::mk(0, 48 + r.below(2), 192 + r.below(3)); g.p = t.get_unknown(g.code, g.n); g.key = fmt("unknown %s %u", ref::fxy(g.code).c_str(), g.n); break;
        }
        auto m = memo.emplace(g.key, g.p);
        c.check(m.first->second == g.p, "local-entry-moved", g.key + ": the same request gave a different object");
        given.push_back(g);
        for (auto& x : given)
        {
            c.check(x.p->code == x.code, "local-entry-differs", x.key + ": code is " + ref::fxy(x.p->code));
            c.check(x.p->type == (x.kind == 2 ? Vartype::Binary : Vartype::String), "local-entry-differs", x.key + ": wrong type");
            unsigned bits = x.kind == 2 ? x.n : x.n * 8, len = x.kind == 2 ? (x.n + 7) / 8 : x.n;
            c.check(x.p->bit_len == bits && x.p->len == len, "local-entry-differs", x.key + fmt(": %u bits, length %u", x.p->bit_len, x.p->len));
        }
        c.count("local-entries");
    }
}

std::vector<std::pair<std::string, bool>> bfiles;
void btable_setup(vf::Ctx&)
{
    for (auto& p : ref::table_files('B'))
    {
        if (p.size() - p.rfind('/') - 1 != 11) bfiles.push_back({p, true});
        bfiles.push_back({p, false});
    }
}

void btable_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    if (c.case_no < bfiles.size())
    {
        auto& bf = bfiles[c.case_no];
        c.note(bf.first);
        const ref::TableFile& f = bf.second ? ref::load_bufr_b(bf.first) : ref::load_crex_b(bf.first);
        if (!f.ok)
        {
            bool thrown = false;
            try { load(bf.second, bf.first); } catch (wreport::error&) { thrown = true; }
            c.check(thrown, "malformed-accepted", bf.first);
            c.count("installed-refused");
            return;
        }
        const Vartable* t = load(bf.second, bf.first);
        TableMon m(c, t, f, bf.second);
        m.all();
        m.iterate();
        if (bf.second) alteration_history(c, m, 400);
        m.all();
        c.count("installed-tables");
        c.distinct(vf::fnv(bf.first) + bf.second);
        c.sample(fmt("%s: %zu entries as %s", bf.first.c_str(), f.order.size(), bf.second ? "BUFR" : "CREX"));
        return;
    }
    bool bufr = r.chance(2, 3);
    if (r.chance(1, 6)) { local_entries(c); }
    BFile g = gen_b(r, bufr);
    if (r.chance(2, 5) && g.lines.size() > 1)
    {
        // Damage it
        std::vector<std::string> l = g.lines;
        size_t k = r.below(l.size());
        const char* what;
        bool c31 = !bufr && l[k].size() > 6 && l[k].substr(2, 2) == "31";
        switch (r.below(5))
        {
            case 0: { if (c31) return; size_t lim = bufr ? 117 : 155; l[k] = l[k].substr(0, ref::utf8_col(l[k], r.chance(1, 2) ? r.below(lim) : lim)); what = "short line"; break; }
            case 1: what = "empty line"; l.insert(l.begin() + k, ""); break;
            case 2: what = "duplicate code"; if (c31 && ref::utf8_len(l[k]) < 156) return; l.insert(l.begin() + k, l[k]); break;
            case 3: {
                what = "unsorted"; size_t j = r.below(l.size());
                if (j == k) return;
                if (!bufr && (ref::utf8_len(l[k]) < 156 || ref::utf8_len(l[j]) < 156)) return;
                std::swap(l[k], l[j]); break; }
            default: what = "invalid code"; l[k][2 + r.below(5)] = "ABx -*\t"[r.below(7)]; break;
        }
        std::string text; for (auto& x : l) text += x + "\n";
        Temp tmp(c, "bad", text);
        c.note(tmp.path);
        for (int i = 0; i < 2; ++i)
        {
            bool thrown = false;
            try { load(bufr, tmp.path); } catch (wreport::error&) { thrown = true; }
            c.check(thrown, "malformed-accepted", fmt("%s B table with a %s at line %zu was loaded%s", bufr ? "BUFR" : "CREX", what, k + 1, i ? " at the second attempt" : ""));
        }
        c.count(std::string("refused:") + what);
        c.distinct(vf::fnv(text));
        // Once repaired it can be loaded
        if (r.chance(1, 2)) { put(tmp.path, g.text); g.f.path = tmp.path; const Vartable* t = load(bufr, tmp.path); TableMon m(c, t, g.f, bufr); m.all(); c.count("repaired"); }
        return;
    }
    Temp tmp(c, "b", g.text);
    c.note(tmp.path);
    g.f.path = tmp.path;
    const Vartable* t = load(bufr, tmp.path);
    c.check(t == load(bufr, tmp.path), "table-cache", "loading the same file twice gives different tables");
    c.check(t->path() == tmp.path, "table-path", "path() is " + t->path().string() + " instead of " + tmp.path);
    TableMon m(c, t, g.f, bufr);
    m.all();
    m.iterate();
    if (bufr) alteration_history(c, m, r.range(1, 60));
    m.all();
    c.count(bufr ? "synthetic-bufr" : "synthetic-crex");
    c.distinct(vf::fnv(g.text));
}

// ---------------------------------------------------------------- C11

struct DGen { std::string text; std::vector<std::string> lines; std::map<Code, std::vector<Code>> d; };
std::string dcode(vf::Rng& r, Code c) { return r.chance(1, 4) ? fmt("%u%02u%03u", ref::F(c), ref::X(c), ref::Y(c)) : ref::fxy(c); }
Code rcode(vf::Rng& r)
{
    switch (r.below(8))
    {
        case 0: return ref::mk(1, r.range(1, 5), r.range(0, 5));
        case 1: return ref::mk(2, r.pick(std::vector<unsigned>{1, 2, 3, 4, 5, 6, 7, 8, 22, 23, 36, 37}), r.pick(std::vector<unsigned>{0, 1, 130, 255}));
        case 2: return ref::mk(3, r.below(64), r.below(256));
        default: return ref::mk(0, r.below(64), r.below(256));
    }
}
DGen gen_d(vf::Rng& r)
{
    DGen g;
    std::vector<Code> codes; std::set<Code> seen;
    unsigned n = r.range(1, 25);
    while (codes.size() < n) { Code k = r.chance(1, 2) ? ref::mk(3, 1, r.below(40)) : ref::mk(3, r.below(64), r.below(256)); if (seen.insert(k).second) codes.push_back(k); }
    if (r.chance(2, 3)) std::sort(codes.begin(), codes.end());
    for (Code k : codes)
    {
        unsigned cnt = r.chance(1, 20) ? r.range(90, 130) : r.range(1, 9);
        std::vector<Code> v; for (unsigned i = 0; i < cnt; ++i) v.push_back(rcode(r));
        for (unsigned i = 0; i < cnt; ++i)
        {
            std::string l;
            if (i == 0) l = " " + dcode(r, k) + rpad(std::to_string(cnt), 3) + " " + dcode(r, v[i]);
            else l = std::string(11, ' ') + dcode(r, v[i]);
            if (r.chance(1, 8)) l += " ";
            g.lines.push_back(l);
            g.text += l + "\n";
        }
        g.d[k] = v;
    }
    return g;
}
std::vector<Code> vec(const Opcodes& o) { std::vector<Code> v; for (unsigned i = 0; i < o.size(); ++i) v.push_back(o[i]); return v; }

void check_d(vf::Ctx& c, const DTable* t, const std::string& path, const std::map<Code, std::vector<Code>>& d)
{
    for (auto& e : d)
    {
        Opcodes o = t->query(e.first);
        c.check(vec(o) == e.second, "sequence-differs", path + ": " + ref::fxy(e.first) + " expands to" + cmp::dds(vec(o)) + " instead of" + cmp::dds(e.second));
        c.count("sequences");
    }
    for (unsigned i = 0; i < 60; ++i)
    {
        Code k = c.rng.chance(1, 2) && !d.empty() ? [&]{ auto x = d.begin(); std::advance(x, c.rng.below(d.size())); return Code(x->first + c.rng.range(-1, 1)); }() : Code(c.rng.below(65536));
        if (d.count(k)) continue;
        bool thrown = false;
        try { t->query(k); } catch (error_notfound&) { thrown = true; }
        c.check(thrown, "sequence-invented", path + ": " + ref::fxy(k) + " is not in the file but query() did not fail");
        c.count("absent");
    }
}

void opcodes_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    for (int rep = 0; rep < 10; ++rep)
    {
        // Exactly allocated, so that ASan sees any access outside
        std::vector<Varcode> v; unsigned n = r.below(12);
        for (unsigned i = 0; i < n; ++i) v.push_back(rcode(r));
        v.shrink_to_fit();
        Opcodes o(v);
        std::vector<Code> m(v.begin(), v.end());
        for (int step = 0; step < 6; ++step)
        {
            c.check(o.size() == m.size() && o.empty() == m.empty() && vec(o) == m, "opcodes", "sequence is" + cmp::dds(vec(o)) + " instead of" + cmp::dds(m));
            c.check(o.head() == (m.empty() ? 0 : m[0]), "opcodes", "head()");
            unsigned far = r.chance(1, 2) ? m.size() + r.below(5) : 0xffffffffu - r.below(3);
            c.check(o[far] == 0, "opcodes", "element out of the sequence");
            unsigned a = r.chance(1, 10) ? 0xffffffffu : r.below(m.size() + 4), b = r.chance(1, 6) ? 0xffffffffu - r.below(4) : r.below(m.size() + 4);
            std::vector<Code> s1 = a > m.size() ? std::vector<Code>() : std::vector<Code>(m.begin() + a, m.end());
            std::vector<Code> s2 = s1; if (b < s2.size()) s2.resize(b);
            c.check(vec(o.sub(a)) == s1, "opcodes", fmt("sub(%u) of", a) + cmp::dds(m) + " gives" + cmp::dds(vec(o.sub(a))));
            c.check(vec(o.sub(a, b)) == s2, "opcodes", fmt("sub(%u, %u) of", a, b) + cmp::dds(m) + " gives" + cmp::dds(vec(o.sub(a, b))));
            c.check(vec(o.next()) == (m.empty() ? m : std::vector<Code>(m.begin() + 1, m.end())), "opcodes", "next()");
            c.count("slices", 4);
            switch (r.below(4))
            {
                case 0: o = o.next(); if (!m.empty()) m.erase(m.begin()); break;
                case 1: {
                    bool thrown = false; Varcode x = 0;
                    try { x = o.pop_left(); } catch (error_consistency&) { thrown = true; }
                    c.check(thrown == m.empty(), "opcodes", "pop_left() on an empty sequence");
                    if (!thrown) { c.check(x == m[0], "opcodes", "pop_left() value"); m.erase(m.begin()); }
                    break; }
                case 2: {
                    unsigned k = r.below(m.size() + 3);
                    bool thrown = false; std::vector<Code> got;
                    try { got = vec(o.pop_left(k)); } catch (error_consistency&) { thrown = true; }
                    c.check(thrown == (k > m.size()), "opcodes", fmt("pop_left(%u) on %zu elements", k, m.size()));
                    if (!thrown) { c.check(got == std::vector<Code>(m.begin(), m.begin() + k), "opcodes", "pop_left(n) values"); m.erase(m.begin(), m.begin() + k); }
                    break; }
                default: { unsigned x = r.below(3), y = r.below(8); o = o.sub(x, y); m = x > m.size() ? std::vector<Code>() : std::vector<Code>(m.begin() + x, m.end()); if (y < m.size()) m.resize(y); break; }
            }
        }
    }
}

// Trace of an interpretation
struct Tracer : public bulletin::Interpreter
{
    std::vector<std::string> ev;
    vf::Rng plan;            // replication factors
    unsigned long steps = 0;
    Tracer(const Tables& t, const Opcodes& o, uint64_t seed) : Interpreter(t, o), plan(seed) {}
    void step() { if (++steps > 200000) throw std::runtime_error("too many steps"); }
    void b_variable(Varcode code) override { step(); ev.push_back("b " + ref::fxy(code)); }
    void c_modifier(Varcode code, Opcodes& next) override
    {
        step();
        ev.push_back("c " + ref::fxy(code) + " next" + cmp::dds(vec(next)));
        // Consume what belongs to the modifier, as an actual interpreter does
        if ((WR_VAR_X(code) == 4 || WR_VAR_X(code) == 6) && WR_VAR_Y(code)) ev.push_back("arg " + ref::fxy(next.pop_left()));
    }
    void r_replication(Varcode code, Varcode delayed_code, const Opcodes& ops) override
    {
        step();
        ev.push_back("r " + ref::fxy(code) + " delayed " + ref::fxy(delayed_code) + " ops" + cmp::dds(vec(ops)));
        bulletin::Interpreter::r_replication(code, delayed_code, ops);
        ev.push_back("end r");
    }
    unsigned define_delayed_replication_factor(Varinfo info) override { unsigned n = plan.below(4); ev.push_back(fmt("factor %s = %u", ref::fxy(info->code).c_str(), n)); return n; }
    void run_r_repetition(unsigned cur, unsigned total) override { step(); ev.push_back(fmt("rep %u/%u", cur, total)); bulletin::Interpreter::run_r_repetition(cur, total); }
    void run_d_expansion(Varcode code) override { step(); ev.push_back("d " + ref::fxy(code)); bulletin::Interpreter::run_d_expansion(code); ev.push_back("end d"); }
};
struct RTrace
{
    const std::map<Code, std::vector<Code>>& d; const ref::TableFile& b;
    std::vector<std::string> ev; vf::Rng plan; unsigned long steps = 0;
    RTrace(const std::map<Code, std::vector<Code>>& d, const ref::TableFile& b, uint64_t seed) : d(d), b(b), plan(seed) {}
    void run(const std::vector<Code>& ops)
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (++steps > 50000) throw ref::Unsup("too long");
            Code k = ops[i];
            switch (ref::F(k))
            {
                case 0: ev.push_back("b " + ref::fxy(k)); break;
                case 1: {
                    Code delayed = 0; unsigned n = ref::Y(k);
                    if (!n) { if (i + 1 < ops.size() && ref::F(ops[i + 1]) == 0 && ref::X(ops[i + 1]) == 31) delayed = ops[++i]; else delayed = ref::mk(0, 31, 12); }
                    if (ref::X(k) > ops.size() - i - 1) throw ref::BadData("replication past the end");
                    std::vector<Code> sub(ops.begin() + i + 1, ops.begin() + i + 1 + ref::X(k));
                    i += ref::X(k);
                    ev.push_back("r " + ref::fxy(k) + " delayed " + ref::fxy(delayed) + " ops" + cmp::dds(sub));
                    if (!n) { if (!b.b.count(delayed)) throw ref::BadData("no factor"); n = plan.below(4); ev.push_back(fmt("factor %s = %u", ref::fxy(delayed).c_str(), n)); }
                    for (unsigned j = 0; j < n; ++j) { ev.push_back(fmt("rep %u/%u", j, n)); run(sub); }
                    ev.push_back("end r");
                    break; }
                case 2: {
                    std::vector<Code> rest(ops.begin() + i + 1, ops.end());
                    ev.push_back("c " + ref::fxy(k) + " next" + cmp::dds(rest));
                    if ((ref::X(k) == 4 || ref::X(k) == 6) && ref::Y(k)) { if (rest.empty()) throw ref::BadData("no argument"); ev.push_back("arg " + ref::fxy(rest[0])); ++i; }
                    break; }
                default: {
                    auto e = d.find(k);
                    if (e == d.end()) throw ref::BadData("no sequence");
                    ev.push_back("d " + ref::fxy(k)); run(e->second); ev.push_back("end d");
                    break; }
            }
        }
    }
};

// What print_datadesc shows: indentation and code of each line
struct RPrint
{
    const std::map<Code, std::vector<Code>>& d; const ref::TableFile& b;
    std::vector<std::pair<unsigned, std::string>> lines; unsigned indent = 0; unsigned long steps = 0; bool af = false, alt = false;
    static std::string n(Code k) { return fmt("%u%02u%03u", ref::F(k), ref::X(k), ref::Y(k)); }
    void bline(Code k) { auto e = b.b.find(k); lines.push_back({indent, n(k) + (e == b.b.end() ? std::string(" (missing") : " " + ref::utf8_cut(e->second.desc, 63) + "[" + ref::utf8_cut(e->second.unit, 23) + "]")}); }
    void run(const std::vector<Code>& ops)
    {
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (++steps > 20000) throw ref::Unsup("too long");
            Code k = ops[i];
            switch (ref::F(k))
            {
                case 0: bline(k); break;
                case 1: {
                    Code delayed = 0;
                    if (!ref::Y(k)) { if (i + 1 < ops.size() && ref::F(ops[i + 1]) == 0 && ref::X(ops[i + 1]) == 31) delayed = ops[++i]; else delayed = ref::mk(0, 31, 12); }
                    if (ref::X(k) > ops.size() - i - 1) throw ref::BadData("replication past the end");
                    lines.push_back({indent, n(k) + fmt(" replicate %u descriptors", ref::X(k)) + (ref::Y(k) ? fmt(" %u times", ref::Y(k)) : " (delayed " + n(delayed) + ") times")});
                    indent += 2; run(std::vector<Code>(ops.begin() + i + 1, ops.begin() + i + 1 + ref::X(k))); indent -= 2;
                    i += ref::X(k);
                    break; }
                case 2: {
                    switch (ref::X(k))
                    {
                        case 1: case 2: case 7: case 8: case 5: if (ref::X(k) != 5 && ref::Y(k)) alt = true; lines.push_back({indent, n(k)}); break;
                        case 3: lines.push_back({indent, n(k)}); break;
                        case 4:
                            lines.push_back({indent, n(k)});
                            if (ref::Y(k) > 32 || (ref::Y(k) && af)) throw ref::Unsup("associated field");
                            af = ref::Y(k);
                            if (ref::Y(k)) { if (i + 1 >= ops.size() || ops[i + 1] != ref::mk(0, 31, 21)) throw ref::BadData("no significance"); if (!b.b.count(ops[i + 1])) throw ref::Unsup("no B31021"); bline(ops[++i]); }
                            break;
                        case 6:
                            if (i + 1 >= ops.size()) throw ref::BadData("no local descriptor");
                            // the entry as altered so far may not be representable
                            if (alt && b.b.count(ops[i + 1])) throw ref::Unsup("local descriptor in the table, altered");
                            lines.push_back({indent, n(k) + " local descriptor " + n(ops[i + 1])}); ++i; break;
                        default: throw ref::Unsup("operator");
                    }
                    break; }
                default: {
                    auto e = d.find(k);
                    if (e == d.end()) throw ref::BadData("no sequence");
                    lines.push_back({indent, n(k) + " (group)"});
                    indent += 2; run(e->second); indent -= 2;
                    break; }
            }
        }
    }
};

std::vector<Code> rand_dds(vf::Rng& r, const std::vector<Code>& bcodes, const std::vector<Code>& dcodes, int depth, bool bad)
{
    std::vector<Code> res;
    unsigned n = r.range(1, 7);
    for (unsigned i = 0; i < n; ++i)
        switch (r.below(9))
        {
            case 0: case 1: {
                if (depth >= 3) { res.push_back(r.pick(bcodes)); break; }
                auto sub = rand_dds(r, bcodes, dcodes, depth + 1, bad);
                if (sub.size() > 60) sub.resize(60);
                unsigned x = sub.size(), y = r.chance(1, 2) ? 0 : r.range(1, 4);
                if (bad && r.chance(1, 6)) x = r.below(64);
                res.push_back(ref::mk(1, x, y));
                if (!y && !r.chance(1, 6)) res.push_back(ref::mk(0, 31, r.pick(std::vector<unsigned>{0, 1, 2})));
                res.insert(res.end(), sub.begin(), sub.end());
                break; }
            case 2: case 3: if (!dcodes.empty()) res.push_back(r.pick(dcodes)); break;
            case 4:
                switch (r.below(7))
                {
                    case 0: res.push_back(ref::mk(2, 1, r.range(127, 131))); break;
                    case 1: res.push_back(ref::mk(2, 2, r.range(127, 131))); break;
                    case 2: res.push_back(ref::mk(2, 8, r.range(0, 12))); break;
                    case 3: res.push_back(ref::mk(2, 7, r.range(0, 2))); break;
                    case 4: res.push_back(ref::mk(2, 4, r.range(1, 7))); res.push_back(ref::mk(0, 31, 21)); res.push_back(r.pick(bcodes)); res.push_back(ref::mk(2, 4, 0)); break;
                    case 5: res.push_back(ref::mk(2, 5, r.range(1, 20))); break;
                    default: res.push_back(ref::mk(2, 6, r.range(1, 24))); res.push_back(ref::mk(0, r.below(64), r.below(256))); break;
                }
                break;
            default: res.push_back(bad && r.chance(1, 12) ? rcode(r) : r.pick(bcodes)); break;
        }
    return res;
}

void interpret(vf::Ctx& c, const Tables& t, const std::map<Code, std::vector<Code>>& d, const ref::TableFile& b, const std::vector<Code>& dd)
{
    uint64_t seed = c.rng.next();
    std::string what = cmp::dds(dd);
    c.note("interpreting" + what);
    std::vector<Varcode> tight(dd.begin(), dd.end()); tight.shrink_to_fit();
    {
        RTrace rt(d, b, seed);
        bool bad = false;
        try { rt.run(dd); } catch (ref::BadData&) { bad = true; } catch (ref::Unsup&) { c.count("too-long"); return; }
        Tracer tr(t, tight, seed);
        bool thrown = false; std::string msg;
        try { tr.run(); } catch (wreport::error& e) { thrown = true; msg = e.what(); }
        size_t n = std::min(tr.ev.size(), rt.ev.size());
        for (size_t i = 0; i < n; ++i)
            c.check(tr.ev[i] == rt.ev[i], "visit-differs", fmt("step %zu is '%s' instead of '%s' interpreting", i, tr.ev[i].c_str(), rt.ev[i].c_str()) + what);
        c.check(thrown == bad, bad ? "bad-descriptors-accepted" : "descriptors-refused", "interpreting" + what + ": " + msg);
        if (!bad) c.check(tr.ev.size() == rt.ev.size(), "visit-differs", fmt("%zu steps instead of %zu interpreting", tr.ev.size(), rt.ev.size()) + what);
        c.count("visited", tr.ev.size());
        c.count(bad ? "interpreted-bad" : "interpreted");
        c.distinct(vf::fnv(what));
    }
}

void print_dd(vf::Ctx& c, unsigned mtv, const std::vector<Code>& dd)
{
    ref::TableSet ts = ref::wmo_bufr(mtv);
    RPrint rp{ts.d->d, *ts.b};
    bool bad = false;
    try { rp.run(dd); } catch (ref::BadData&) { bad = true; } catch (ref::Unsup&) { c.count("print-skipped"); return; }
    auto b = BufrBulletin::create();
    b->master_table_version_number = mtv;
    b->datadesc.assign(dd.begin(), dd.end());
    b->load_tables();
    char* buf = nullptr; size_t len = 0;
    FILE* f = open_memstream(&buf, &len);
    bool thrown = false; std::string msg;
    try { b->print_datadesc(f, 4); } catch (wreport::error& e) { thrown = true; msg = e.what(); } catch (...) { fclose(f); free(buf); throw; }
    fclose(f);
    std::string out(buf, len); free(buf);
    c.check(thrown == bad, bad ? "bad-descriptors-printed" : "descriptors-not-printed", "print_datadesc of" + cmp::dds(dd) + ": " + msg);
    std::vector<std::string> lines; std::string cur;
    for (char ch : out) if (ch == '\n') { lines.push_back(cur); cur.clear(); } else cur += ch;
    size_t n = std::min(lines.size(), rp.lines.size());
    if (!bad) c.check(lines.size() == rp.lines.size(), "printed-differs", fmt("%zu lines instead of %zu printing", lines.size(), rp.lines.size()) + cmp::dds(dd) + "\n" + out);
    for (size_t i = 0; i < n; ++i)
    {
        std::string want = std::string(rp.lines[i].first + 4, ' ') + rp.lines[i].second;
        c.check(lines[i].compare(0, want.size(), want) == 0, "printed-differs", fmt("line %zu is '%s' instead of '%s' printing", i, lines[i].c_str(), want.c_str()) + cmp::dds(dd));
    }
    c.count("printed-lines", n);
}

std::vector<std::string> dfiles;
std::vector<unsigned> mtvs;
void dtable_setup(vf::Ctx&) { dfiles = ref::table_files('D'); mtvs = ref::wmo_versions(); }

void dtable_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    if (c.case_no < dfiles.size())
    {
        const std::string& p = dfiles[c.case_no];
        const ref::DFile& f = ref::load_d(p);
        c.note(p);
        bool crex = p.size() - p.rfind('/') - 1 == 11;
        if (!f.ok) { c.count("installed-not-judged"); return; }
        const DTable* t = crex ? DTable::load_crex(p) : DTable::load_bufr(p);
        check_d(c, t, p, f.d);
        c.count("installed-tables");
        c.distinct(vf::fnv(p));
        return;
    }
    switch (r.below(5))
    {
        case 0: opcodes_case(c); return;
        case 1: case 2: {
            // Descriptors over installed tables
            unsigned mtv = r.pick(mtvs);
            ref::TableSet ts = ref::wmo_bufr(mtv);
            std::vector<Code> bc, dc;
            for (int i = 0; i < 8; ++i) { bc.push_back(ts.b->order[r.below(ts.b->order.size())].code); auto e = ts.d->d.begin(); std::advance(e, r.below(ts.d->d.size())); dc.push_back(e->first); }
            std::vector<Code> dd = rand_dds(r, bc, dc, 0, r.chance(1, 4));
            static std::map<unsigned, std::unique_ptr<Tables>> tabs;
            auto& t = tabs[mtv];
            if (!t) { t.reset(new Tables); t->btable = Vartable::load_bufr(std::filesystem::path(ts.b->path)); t->dtable = DTable::load_bufr(ts.d->path); }
            if (ref::template_work(dd, ts.d, 4) > 20000) { c.count("too-long"); return; }
            interpret(c, *t, ts.d->d, *ts.b, dd);
            print_dd(c, mtv, dd);
            if (c.samples.empty()) c.sample("interpreted and printed" + cmp::dds(dd));
            return; }
        default: {
            DGen g = gen_d(r);
            bool crex = r.chance(1, 3);
            auto ld = [&](const std::string& p) { return crex ? DTable::load_crex(p) : DTable::load_bufr(p); };
            if (r.chance(2, 5))
            {
                auto l = g.lines; size_t k = r.below(l.size()); const char* what;
                switch (r.below(10))
                {
                    case 7: what = "line before the first entry"; l.insert(l.begin(), std::string(11, ' ') + "B01001 "); k = 0; break;
                    case 8: case 9: what = "wrong number of items"; {
                        // DNNNNN in columns 1-6, and the number after it
                        while (k && l[k][1] == ' ') --k;
                        size_t b = l[k].find_first_not_of(' ', 7), e = l[k].find(' ', b);
                        int n = atoi(l[k].c_str() + 7), w = e - 7, m = r.chance(1, 3) ? 0 : r.chance(1, 2) ? n + 1 : n - 1;
                        if (m >= 100) return;
                        l[k].replace(7, w, fmt("%*d", w, m)); break; }
                    case 0: what = "short line"; l[k] = l[k].substr(0, r.below(17)); break;
                    case 1: what = "empty line"; l.insert(l.begin() + k, ""); break;
                    case 2: what = "missing line"; { if (l.size() < 2 || l[k][1] != ' ') return; l.erase(l.begin() + k); } break;
                    case 3: what = "extra line"; l.insert(l.begin() + k + 1, std::string(11, ' ') + "B01001"); break;
                    case 4: what = "invalid code"; { size_t p = l[k].find_last_not_of(' '); l[k][p - r.below(5)] = 'x'; } break;
                    case 5: what = "unrecognised line"; l.insert(l.begin() + k, " X01001  1 B01001   "); break;
                    default: what = "no entries"; l.clear(); break;
                }
                std::string text; for (auto& x : l) text += x + "\n";
                Temp tmp(c, "dbad", text);
                c.note(tmp.path + "\n" + text);
                for (int i = 0; i < 2; ++i)
                {
                    bool thrown = false;
                    try { ld(tmp.path); } catch (wreport::error&) { thrown = true; }
                    c.check(thrown, "malformed-accepted", fmt("D table with a %s at line %zu was loaded", what, k + 1) + "\n" + text);
                }
                c.count(std::string("refused:") + what);
                c.distinct(vf::fnv(text));
                return;
            }
            Temp tmp(c, "d", g.text);
            c.note(tmp.path);
            const DTable* t = ld(tmp.path);
            c.check(t == ld(tmp.path), "table-cache", "loading the same file twice gives different tables");
            check_d(c, t, tmp.path, g.d);
            c.count("synthetic-tables");
            c.distinct(vf::fnv(g.text));
            // Sequences that only refer to what exists
            const ref::TableFile& bf = *ref::wmo_bufr(mtvs.back()).b;
            Tables tb; tb.btable = Vartable::load_bufr(std::filesystem::path(bf.path)); tb.dtable = t;
            std::vector<Code> bc, dc;
            for (int i = 0; i < 4; ++i) bc.push_back(bf.order[r.below(bf.order.size())].code);
            // Only acyclic use
            std::set<Code> busy; std::function<bool(Code, int)> acyclic = [&](Code k, int depth) {
                auto e = g.d.find(k); if (e == g.d.end()) return true;
                if (depth > 6 || !busy.insert(k).second) return false;
                bool ok = true;
                for (auto x : e->second) if (ref::F(x) == 3 && !acyclic(x, depth + 1)) ok = false;
                busy.erase(k);
                return ok;
            };
            for (auto& e : g.d) if (acyclic(e.first, 0)) dc.push_back(e.first);
            if (dc.empty()) return;
            std::vector<Code> dd = rand_dds(r, bc, dc, 1, false);
            ref::DFile df; df.d = g.d;
            if (ref::template_work(dd, &df, 4) > 20000) { c.count("too-long"); return; }
            interpret(c, tb, g.d, bf, dd);
            return; }
    }
}

vf::Reg r1("btable", btable_case, btable_setup);
vf::Reg r2("dtable", dtable_case, dtable_setup);
}
