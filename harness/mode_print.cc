// C22: printed forms of variables, bulletins and descriptors
#include "cmp.h"
#include "crexutil.h"
#include "varpool.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/opcodes.h>
#include <wreport/tableinfo.h>
#include <functional>
#include <sstream>

using namespace wreport;
using ref::Code; using ref::Step; using ref::RVar; using ref::RSubset;
using vf::fmt;

namespace {

std::string text_of(std::function<void(FILE*)> fn)
{
    char* b = nullptr; size_t n = 0;
    FILE* f = open_memstream(&b, &n);
    std::string err;
    try { fn(f); } catch (std::exception& e) { err = std::string("exception: ") + e.what(); }
    fclose(f);
    std::string s(b, n); free(b);
    return s + err;
}
std::string code(Code c) { return fmt("%u%02u%03u", ref::F(c), ref::X(c), ref::Y(c)); }
std::string letters(Code c) { return fmt("%c%02u%03u", "BRCD"[ref::F(c)], ref::X(c), ref::Y(c)); }

std::string value(const RVar& v)
{
    if (!v.isset) return "(undef)";
    switch (v.info.kind)
    {
        case ref::STR: return v.s;
        case ref::BIN: { std::string h; for (unsigned char x : v.s) h += fmt("%02X", x); return h; }
        default: return varpool::text(v.i, v.info.scale);
    }
}
// Descriptions and units are kept up to a fixed length
std::string cut(const std::string& s, size_t n) { return s.substr(0, n); }
const size_t DESC = 63, UNIT = 23;
// Names of the entries that are not in tables
std::string desc(const RVar& v)
{
    if (ref::F(v.info.code) == 2) return ref::X(v.info.code) == 5 ? "CHARACTER DATA" : "DATA PRESENT BITMAP";
    if (v.info.kind == ref::BIN && v.info.desc.empty()) return "UNKNOWN LOCAL DESCRIPTOR";
    return cut(v.info.desc, DESC);
}
std::string unit(const RVar& v) { return v.info.kind == ref::BIN && v.info.unit.empty() ? "UNKNOWN" : cut(v.info.unit, UNIT); }
std::string one(const RVar& v) { return code(v.info.code) + " " + desc(v) + "(" + unit(v) + "): " + value(v) + "\n"; }
std::string with_attrs(const RVar& v)
{
    std::string s = one(v);
    for (auto& a : v.attrs) s += "           " + one(a);
    return s;
}

void same(vf::Ctx& c, const std::string& got, const std::string& want, const char* what, const std::string& ctx)
{
    c.count(std::string("compared:") + what); c.count("bytes-compared", want.size());
    if (got == want) return;
    size_t p = 0; while (p < got.size() && p < want.size() && got[p] == want[p]) ++p;
    size_t from = got.rfind('\n', p ? p - 1 : 0); from = from == std::string::npos ? 0 : from;
    c.failstop(what, fmt("at byte %zu: ", p) + vf::jstr(got.substr(from, 300)) + " instead of " + vf::jstr(want.substr(from, 300)) + "; " + ctx);
}

// ---- descriptors

struct Descs
{
    const ref::TableFile& b; const ref::DFile& d;
    std::string out; unsigned steps = 0;
    // A local descriptor that is in the tables, while operators change
    // entries in a way it may not stand: the library refuses it
    bool may_refuse = false, changes = false;
    Descs(const ref::TableFile& b, const ref::DFile& d) : b(b), d(d) {}
    void lead(Code c, unsigned ind) { out += std::string(ind, ' ') + code(c) + " "; }
    void elem(Code c, unsigned ind)
    {
        lead(c, ind);
        auto e = b.b.find(c);
        if (e == b.b.end()) out += "(missing in B table " + b.path + ")\n";
        else out += cut(e->second.desc, DESC) + "[" + cut(e->second.unit, UNIT) + "]\n";
    }
    void walk(const std::vector<Code>& ops, unsigned ind)
    {
        for (size_t p = 0; p < ops.size(); )
        {
            if (++steps > 5000) throw ref::Unsup("long");
            Code c = ops[p++];
            unsigned x = ref::X(c), y = ref::Y(c);
            switch (ref::F(c))
            {
                case 0: elem(c, ind); break;
                case 1:
                {
                    lead(c, ind);
                    out += fmt("replicate %u descriptors ", x);
                    Code f = ref::mk(0, 31, 12);
                    if (!y && p < ops.size() && ref::F(ops[p]) == 0 && ref::X(ops[p]) == 31) f = ops[p++];
                    out += y ? fmt("%u times\n", y) : "(delayed " + code(f) + ") times\n";
                    if (p + x > ops.size()) throw ref::Unsup("short");
                    std::vector<Code> sub(ops.begin() + p, ops.begin() + p + x);
                    p += x;
                    walk(sub, ind + 2);
                    break;
                }
                case 2:
                    lead(c, ind);
                    if (x < 4 || x == 7 || x == 8) changes = true;
                    switch (x)
                    {
                        case 1: out += fmt("change data width to %d\n", y ? (int)y - 128 : 0); break;
                        case 2: out += fmt("change data scale to %d\n", y ? (int)y - 128 : 0); break;
                        case 3: out += "(C modifier)\n"; break;
                        case 4: out += fmt("%u bits of associated field\n", y); if (y) { if (p >= ops.size()) throw ref::Unsup("C04"); elem(ops[p++], ind); } break;
                        case 5: out += "character data\n"; break;
                        case 6: if (p >= ops.size()) throw ref::Unsup("C06"); if (changes && b.b.count(ops[p])) may_refuse = true; out += "local descriptor " + code(ops[p++]) + fmt(" %u bits long\n", y); break;
                        case 7: out += fmt("change data scale, reference value and data width by %u\n", y); break;
                        case 8: out += fmt("change width of string fields to %u\n", y); break;
                        case 22: out += "quality information with bitmap\n"; break;
                        case 23: out += y ? "one substituted value\n" : "substituted values bitmap\n"; break;
                        case 36: out += "define data present bitmap for reuse\n"; break;
                        case 37: out += y ? "cancel reuse of the last defined bitmap\n" : "reuse last data present bitmap\n"; break;
                        default: throw ref::Unsup("operator");
                    }
                    break;
                case 3:
                {
                    lead(c, ind); out += "(group)\n";
                    auto e = d.d.find(c); if (e == d.d.end()) throw ref::Unsup("sequence");
                    walk(e->second, ind + 2);
                    break;
                }
            }
        }
    }
};

void descriptors(vf::Ctx& c, const Bulletin& b, const std::vector<Code>& dd, const ref::TableFile& bt, const ref::DFile& dt, const std::string& ctx)
{
    unsigned ind = c.rng.chance(1, 2) ? 0 : c.rng.below(9);
    Descs d(bt, dt);
    try { d.walk(dd, ind); } catch (ref::Unsup&) { c.count("descriptors-skipped"); return; }
    std::string got = text_of([&](FILE* f) { b.print_datadesc(f, ind); });
    if (d.may_refuse && got.find("exception: ") != std::string::npos) { c.count("descriptors-refused"); return; }
    same(c, got, d.out, "print_datadesc", ctx);
    // Opcodes as a list
    std::string want; for (auto x : dd) want += code(x) + " ";
    if (want.empty()) want = "(empty)";
    same(c, text_of([&](FILE* f) { Opcodes(b.datadesc).print(f); }), want, "opcodes", ctx);
}

// ---- bulletins

std::string head(const Bulletin& b, const std::string& details, const std::vector<Code>& dd, const std::string& bpath, const std::string& dpath)
{
    std::string s = fmt("%s %d:%d:%d %d:%d %04d-%02d-%02d %02d:%02d:%02d %d %zu subsets\n", b.encoding_name(), (int)b.data_category, (int)b.data_subcategory, (int)b.data_subcategory_local, (int)b.originating_centre, (int)b.originating_subcentre,
        (int)b.rep_year, (int)b.rep_month, (int)b.rep_day, (int)b.rep_hour, (int)b.rep_minute, (int)b.rep_second, (int)b.update_sequence_number, b.subsets.size());
    s += " Tables: " + bpath + " " + dpath + "\n Data descriptors:\n";
    for (auto x : dd) s += "  " + code(x) + "\n";
    return s + details + " Variables:\n";
}

void dumps(vf::Ctx& c, const Bulletin& b, const std::string& h, const std::vector<RSubset>& exp, const std::string& ctx)
{
    std::string want = h;
    for (size_t i = 0; i < exp.size(); ++i)
    {
        std::string sub;
        for (size_t j = 0; j < exp[i].size(); ++j)
        {
            std::string t = with_attrs(exp[i][j]);
            want += fmt("  [%zu][%zu] ", i, j) + t;
            sub += fmt("%zu ", j) + t;
        }
        same(c, text_of([&](FILE* f) { b.subsets[i].print(f); }), sub, "subset", ctx);
        c.count("variables", exp[i].size());
    }
    same(c, text_of([&](FILE* f) { b.print(f); }), want, "bulletin", ctx);
}

std::string attr_of(const RVar& v, Code a, bool& there)
{
    there = false;
    for (auto& x : v.attrs) if (x.info.code == a) { there = true; return one(x); }
    return "";
}
Code af_attr(unsigned sig)
{
    switch (sig)
    {
        case 1: case 8: return ref::mk(0, 33, 2);
        case 2: return ref::mk(0, 33, 3);
        case 6: return ref::mk(0, 33, 50);
        case 7: return ref::mk(0, 33, 40);
        case 21: return ref::mk(0, 33, 41);
        default: return 0;
    }
}
// Attributes that are printed as such carry the ones after them
std::string attr_text(const RVar& v, Code a, bool& there)
{
    there = false;
    std::string s;
    for (auto& x : v.attrs)
    {
        if (there) s += "           " + one(x);
        else if (x.info.code == a) { there = true; s = one(x); }
    }
    return s;
}

// Lines of the structured dump: position (where it says something), path and contents
struct Line { std::string path, body; bool exact = true; int64_t pos = -1; };
std::vector<Line> structured_lines(const std::vector<Step>& steps, const RSubset& s)
{
    std::vector<Line> res;
    for (auto& st : steps)
    {
        Line l;
        for (auto p : st.path) l.path += code(p) + "/";
        l.path += code(st.code) + ": ";
        bool there;
        if (st.what == Step::VAR || st.what == Step::ASSOC) l.pos = st.pos + 1;
        else if (st.what == Step::ATTRIBUTE) l.pos = st.pos;
        switch (st.what)
        {
            case Step::VAR: case Step::RAW: case Step::BITMAP: l.body = with_attrs(s.at(st.pos)); break;
            case Step::BITMAP_COUNT: { l.body = fmt(": %lld\n", (long long)st.num); l.exact = false; break; }
            case Step::ATTRIBUTE: l.body = "(attr)" + attr_text(s.at(st.pos), st.code, there); if (!there) l.body += "(undef)\n"; break;
            case Step::ASSOC:
                l.body = attr_text(s.at(st.pos), af_attr(st.num), there);
                if (!there) l.body = fmt("associated field with significance %lld is not present\n", (long long)st.num);
                break;
            case Step::REFVAL: l.body = fmt("new reference value, encoded in %lld bits\n", (long long)st.num); break;
        }
        res.push_back(l);
    }
    return res;
}

void structured(vf::Ctx& c, const Bulletin& b, const std::string& h, const std::vector<RSubset>& exp, const std::vector<std::vector<Step>>& steps, const std::string& ctx)
{
    std::string got = text_of([&](FILE* f) { b.print_structured(f); });
    c.check(got.compare(0, h.size(), h) == 0, "structured-head", vf::jstr(got.substr(0, 600)) + " instead of " + vf::jstr(h) + "; " + ctx);
    size_t p = h.size();
    auto bad = [&](const std::string& want) { c.failstop("structured", fmt("at byte %zu: ", p) + vf::jstr(got.substr(p, 300)) + " instead of " + vf::jstr(want) + "; " + ctx); };
    for (size_t i = 0; i < exp.size(); ++i)
        for (auto& l : structured_lines(steps.size() == 1 ? steps[0] : steps[i], exp[i]))
        {
            std::string num = fmt("%2zu.", i);
            if (got.compare(p, num.size(), num) != 0) bad(num);
            p += num.size();
            // position of the variable
            size_t q = got.find(' ', p + 2);
            if (q == std::string::npos) bad("a position");
            if (l.pos >= 0 && got.substr(p, q - p) != fmt("%2lld", (long long)l.pos)) bad(fmt("%2lld", (long long)l.pos));
            p = q + 1;
            if (got.compare(p, l.path.size(), l.path) != 0) bad(l.path);
            p += l.path.size();
            if (l.exact)
            {
                if (got.compare(p, l.body.size(), l.body) != 0) bad(l.body);
                p += l.body.size();
            } else {
                size_t e = got.find('\n', p);
                if (e == std::string::npos) bad(l.body);
                std::string line = got.substr(p, e + 1 - p);
                if (line.size() < l.body.size() || line.compare(line.size() - l.body.size(), l.body.size(), l.body) != 0) bad(l.body);
                p = e + 1;
            }
            c.count("structured-lines");
        }
    c.check(p == got.size(), "structured-extra", vf::jstr(got.substr(p, 300)) + "; " + ctx);
}

// Verbose decoding shows each value, in order
void verbose(vf::Ctx& c, const ref::GenMsg& g, const std::string& ctx)
{
    std::string got = text_of([&](FILE* f) { BufrBulletin::decode_verbose(cmp::tight(g.msg), f, "gen", 0); });
    size_t p = 0;
    auto find = [&](const std::string& s) {
        size_t q = got.find(s, p);
        c.check(q != std::string::npos, "verbose", vf::jstr(s) + " not found after byte " + std::to_string(p) + ": " + vf::jstr(got.substr(p, 500)) + "; " + ctx);
        p = q + s.size();
        c.count("verbose-values");
    };
    std::string last_lead;
    for (size_t i = 0; i < (g.compressed ? 1 : g.expected.size()); ++i)
    {
        auto& st = g.steps[g.compressed ? 0 : i];
        for (size_t k = 0; k < st.size(); ++k)
        {
            auto& s = st[k];
            switch (s.what)
            {
                case Step::VAR:
                    // Significances, local descriptors and fields with associated fields are not shown
                    if (s.code == ref::mk(0, 31, 21) || (k && st[k - 1].what == Step::ASSOC)) break;
                    if (!s.path.empty() && ref::F(s.path.back()) == 1 && ref::Y(s.path.back()) == 0 && ref::X(s.code) == 31 && ref::Y(s.code) < 3 && g.expected[i][s.pos].info.kind == ref::INT)
                    {
                        find(fmt("%lld\n", (long long)g.expected[i][s.pos].i));
                        break;
                    }
                    if (g.compressed) { for (auto& col : g.expected) { const RVar& v = col[s.pos]; find(v.isset ? value(v) : "-"); } break; }
                    { RVar v = g.expected[i][s.pos]; v.attrs.clear(); find(v.isset ? value(v) : "-"); }
                    break;
                case Step::REFVAL: find(code(s.code)); find(fmt(": %lld\n", (long long)s.val)); break;
                default: break;
            }
        }
    }
}

void bufr_case(vf::Ctx& c)
{
    ref::GenOpts o; o.big = true; o.log_steps = true; if (c.rng.chance(1, 3)) o.max_items = 3;
    o.undef_attrs = c.rng.chance(1, 3);
    ref::GenMsg g = ref::gen_bufr(c.rng, o);
    std::string ctx = "template" + cmp::dds(g.dd) + " message " + vf::hex(g.msg, 800);
    c.note(ctx); c.distinct(g.shape); if (c.case_no < 6) c.sample(ctx);
    std::unique_ptr<BufrBulletin> b;
    try
    {
        if (o.undef_attrs)
        {
            auto opts = BufrCodecOptions::create(); opts->decode_adds_undef_attrs = true;
            b = BufrBulletin::decode(cmp::tight(g.msg), *opts, "gen", 0);
        }
        else b = BufrBulletin::decode(cmp::tight(g.msg), "gen", 0);
    }
    catch (wreport::error& e) { c.count("not-decoded"); return; }
    ref::TableSet t = ref::wmo_bufr(g.h.mtv);
    if (b->tables.btable->path() != t.b->path || b->tables.dtable->path() != t.d->path) { c.count("other-tables"); return; }
    for (size_t i = 0; i < g.expected.size(); ++i)
        if (!cmp::subset(b->subsets[i], g.expected[i]).empty()) { c.count("decoded-differently"); return; }
    std::string det = fmt(" BUFR details: ed%u t%u:%u:%u %c osl%zu\n", (unsigned)b->edition_number, (unsigned)b->master_table_number, (unsigned)b->master_table_version_number, (unsigned)b->master_table_version_number_local, b->compression ? 'c' : '-', b->optional_section.size());
    std::string h = head(*b, det, g.dd, t.b->path, t.d->path);
    dumps(c, *b, h, g.expected, ctx);
    descriptors(c, *b, g.dd, *t.b, *t.d, ctx);
    structured(c, *b, h, g.expected, g.steps, ctx);
    verbose(c, g, ctx);
    c.count("bufr");
}

void crex_case(vf::Ctx& c)
{
    ref::CrexMsg g = ref::gen_crex(c.rng, true);
    std::string ctx = vf::jstr(g.msg.substr(0, 1500));
    c.note(ctx); c.distinct(g.shape);
    std::unique_ptr<CrexBulletin> b;
    try { b = CrexBulletin::decode(cmp::tight(g.msg), "gen", 0); }
    catch (wreport::error& e) { c.count("not-decoded"); return; }
    if (b->tables.btable->path() != g.b->path || b->tables.dtable->path() != g.d->path) { c.count("other-tables"); return; }
    if (b->subsets.size() != g.expected.size()) { c.count("decoded-differently"); return; }
    for (size_t i = 0; i < g.expected.size(); ++i)
        if (!cmp::subset(b->subsets[i], g.expected[i], false).empty()) { c.count("decoded-differently"); return; }
    std::string det = fmt(" CREX details: ed%u t%u:%u:%u:%u %c\n", (unsigned)b->edition_number, (unsigned)b->master_table_number, (unsigned)b->master_table_version_number, (unsigned)b->master_table_version_number_local, (unsigned)b->master_table_version_number_bufr, b->has_check_digit ? 'C' : '-');
    std::string h = head(*b, det, g.dd, g.b->path, g.d->path);
    dumps(c, *b, h, g.expected, ctx);
    descriptors(c, *b, g.dd, *g.b, *g.d, ctx);
    std::vector<std::vector<Step>> steps = g.steps;
    structured(c, *b, h, g.expected, steps, ctx);
    c.count("crex");
}

// ---- variables

void var_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    varpool::Synth synth;
    auto rnd = [&](const varpool::Entry& e, Var& v) {
        RVar m; m.info = e.ref;
        if (r.chance(1, 6)) { v.unset(); return m; }
        m.isset = true;
        if (e.ref.kind == ref::STR)
        {
            for (unsigned n = 1 + r.below(std::min(e.ref.len, 40u)); n; --n) m.s += (char)(r.chance(1, 20) ? "%\n\\\"\t"[r.below(5)] : r.range(32, 126));
            v.sets(m.s);
        } else if (e.ref.kind == ref::BIN) {
            for (unsigned k = 0; k < e.ref.len; ++k) m.s += (char)r.below(256);
            if (e.ref.bit_len % 8) m.s.back() &= (1 << (e.ref.bit_len % 8)) - 1;
            v.sets(m.s);
        } else {
            int64_t lo = e.ref.imin(), hi = e.ref.imax();
            m.i = r.chance(1, 5) ? lo : r.chance(1, 4) ? hi : r.chance(1, 2) ? std::max(lo, std::min(hi, r.range(-200, 200))) : r.range(lo, hi);
            v.seti((int)m.i);
        }
        return m;
    };
    varpool::Entry e = varpool::any(r, synth);
    Var v(e.info);
    RVar m = rnd(e, v);
    std::map<Code, RVar> attrs;
    for (unsigned n = r.chance(1, 2) ? 0 : r.below(5); n; --n)
    {
        varpool::Entry a = varpool::any(r, synth);
        Var av(a.info);
        RVar am = rnd(a, av);
        v.seta(av); attrs[a.ref.code] = am;
    }
    for (auto& a : attrs) m.attrs.push_back(a.second);
    std::string ctx = m.str(); c.note(ctx); c.distinct(vf::fnv(with_attrs(m)));
    RVar alone = m; alone.attrs.clear();
    same(c, text_of([&](FILE* f) { v.print(f); }), with_attrs(m), "print", ctx);
    same(c, text_of([&](FILE* f) { v.print_without_attrs(f); }), one(m), "print_without_attrs", ctx);
    std::string end = r.chance(1, 2) ? "" : "%s|\n";
    std::string w = one(m); w.pop_back();
    same(c, text_of([&](FILE* f) { v.print_without_attrs(f, end.c_str()); }), w + end, "print_without_attrs-end", ctx);
    std::string undef = r.chance(1, 2) ? "" : "%d-";
    same(c, v.format(undef.c_str()), m.isset ? value(m) : undef, "format", ctx);
    same(c, text_of([&](FILE* f) { v.format(f, undef.c_str()); }), m.isset ? value(m) : undef, "format-file", ctx);
    {
        std::ostringstream s; v.print_without_attrs(s);
        same(c, s.str(), letters(m.info.code) + one(m).substr(6), "print-stream", ctx);
        // Each attribute is also there, in order
        std::ostringstream s2; v.print(s2);
        std::string t = s2.str(); size_t p = 0;
        std::vector<RVar> all = m.attrs; all.insert(all.begin(), m);
        for (auto& x : all)
        {
            std::string l = letters(x.info.code) + one(x).substr(6);
            size_t q = t.find(l, p);
            c.check(q != std::string::npos, "print-stream-attrs", vf::jstr(l) + " not in " + vf::jstr(t) + "; " + ctx);
            p = q + l.size();
        }
    }
    // Printing does not change anything
    same(c, text_of([&](FILE* f) { v.print(f); }), with_attrs(m), "print", ctx);
    c.count("vars");
}

void ids(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    auto n = [&](unsigned max) { return (unsigned)(r.chance(1, 4) ? r.below(3) : r.chance(1, 4) ? max - r.below(2) : r.below(max + 1)); };
    unsigned oc = n(65535), os = n(65535), mt = n(255), mv = n(255), ml = n(255), ed = n(255), mb = n(255);
    BufrTableID b(oc, os, mt, mv, ml);
    same(c, text_of([&](FILE* f) { b.print(f); }), fmt("BUFR(%03u:%02u, %02u:%02u:%02u)", oc, os, mt, mv, ml), "bufr-id", "");
    CrexTableID x(ed, oc, os, mt, mv, mb, ml);
    same(c, text_of([&](FILE* f) { x.print(f); }), fmt("CREX(%02u, %02u:%02u, %02u:%02u:%02u:%02u)", ed, oc, os, mt, mv, ml, mb), "crex-id", "");
}

// Bulletins made by hand, with any header, with and without tables
void built_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    auto n = [&](unsigned max) { return (unsigned)(r.chance(1, 4) ? r.below(3) : r.chance(1, 4) ? max - r.below(2) : r.below(max + 1)); };
    auto bb = BufrBulletin::create(); auto cb = CrexBulletin::create();
    bool bufr = r.chance(1, 2);
    Bulletin& b = bufr ? (Bulletin&)*bb : (Bulletin&)*cb;
    b.data_category = n(255); b.data_subcategory = n(255); b.data_subcategory_local = n(255);
    b.originating_centre = n(65535); b.originating_subcentre = n(65535); b.update_sequence_number = n(255);
    b.rep_year = n(9999); b.rep_month = n(99); b.rep_day = n(99); b.rep_hour = n(99); b.rep_minute = n(99); b.rep_second = n(99);
    unsigned mtn = n(255); b.master_table_number = mtn;
    std::string det; std::string bp = "(not loaded)", dp = bp;
    unsigned ed = n(255), mv = n(255), ml = n(255), mb = n(255);
    if (bufr)
    {
        bb->edition_number = ed; bb->master_table_version_number = mv; bb->master_table_version_number_local = ml;
        bb->compression = r.chance(1, 2); bb->optional_section.assign(r.below(300), 'x');
        det = fmt(" BUFR details: ed%u t%u:%u:%u %c osl%zu\n", ed, mtn, mv, ml, bb->compression ? 'c' : '-', bb->optional_section.size());
    } else {
        cb->edition_number = ed; cb->master_table_version_number = mv; cb->master_table_version_number_local = ml; cb->master_table_version_number_bufr = mb;
        cb->has_check_digit = r.chance(1, 2);
        det = fmt(" CREX details: ed%u t%u:%u:%u:%u %c\n", ed, mtn, mv, ml, mb, cb->has_check_digit ? 'C' : '-');
    }
    std::vector<Code> dd; for (unsigned k = r.below(6); k; --k) dd.push_back(r.below(65536));
    for (auto x : dd) b.datadesc.push_back(x);
    std::string h = head(b, det, dd, bp, dp);
    std::string ctx = vf::jstr(h); c.note(ctx); c.distinct(vf::fnv(h));
    same(c, text_of([&](FILE* f) { b.print(f); }), h, "header", ctx);
    same(c, text_of([&](FILE* f) { b.print_structured(f); }), h, "header-structured", ctx);
    c.count(bufr ? "headers:bufr" : "headers:crex");
}

void print_case(vf::Ctx& c)
{
    if (c.rng.chance(1, 10)) return built_case(c);
    switch (c.rng.below(4))
    {
        case 0: case 1: bufr_case(c); break;
        case 2: crex_case(c); break;
        default: for (int i = 0; i < 10; ++i) var_case(c); ids(c); break;
    }
}
void setup(vf::Ctx& c) { varpool::setup(c); cmp::setup_crex(c); }
vf::Reg r1("print", print_case, setup);

}
