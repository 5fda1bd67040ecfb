// C19: comparisons find every difference, and only differences
#include "crexutil.h"
#include "cmp.h"
#include "varpool.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/tableinfo.h>
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <sstream>
#include <fstream>
#include <map>
#include <sys/stat.h>
#include <unistd.h>
using namespace wreport;
using vf::fmt;

namespace {

struct Source
{
    bool crex = false, built = false, corpus = false;
    std::string msg; uint64_t attrs = 0;
    ref::GenMsg g; ref::CrexMsg cg;
    std::unique_ptr<Bulletin> make() const
    {
        auto b = make_plain();
        if (!attrs) return b;
        // More attributes, always the same
        vf::Rng r(attrs);
        const Vartable& t = *b->tables.btable;
        for (auto& s : b->subsets)
            for (unsigned k = r.below(4); k && !s.empty(); --k)
            {
                Var& v = s[r.below(s.size())];
                for (Varcode code : {WR_VAR(0, 33, 7), WR_VAR(0, 33, 2), WR_VAR(0, 1, 1), WR_VAR(0, 12, 101), WR_VAR(0, 1, 11)})
                {
                    if (!r.chance(1, 3) || !t.contains(code)) continue;
                    Varinfo i = t.query(code);
                    if (i->type == Vartype::String) v.seta(Var(i, "abc")); else v.seta(Var(i, (int)r.below(std::min(30, i->imax + 1))));
                }
            }
        return b;
    }
    std::unique_ptr<Bulletin> make_plain() const
    {
        if (built) { if (crex) return cmp::build(cg); return cmp::build(g); }
        if (crex) return CrexBulletin::decode(msg, "d", 0);
        return BufrBulletin::decode(msg, "d", 0);
    }
    std::string describe() const { return fmt("%s %s ", crex ? "CREX" : "BUFR", built ? "built" : "decoded") + vf::hex(msg, 900); }
};

Source gen(vf::Rng& r)
{
    Source s; s.crex = r.chance(1, 3);
    if (s.crex)
    {
        if (r.chance(1, 4)) { s.msg = r.pick(ref::crex_corpus()).data; s.corpus = true; return s; }
        s.cg = ref::gen_crex(r); s.msg = s.cg.msg; s.built = r.chance(1, 2);
    } else {
        if (r.chance(1, 5)) { do s.msg = r.pick(ref::bufr_corpus()).data; while (s.msg.size() > 3000); s.corpus = true; return s; }
        ref::GenOpts o; o.undef_attrs = false;
        s.g = ref::gen_bufr(r, o); s.msg = s.g.msg; s.built = r.chance(1, 2);
    }
    return s;
}

// Number of differences, looking at the notes too
unsigned diff(vf::Ctx& c, const Bulletin& a, const Bulletin& b, const std::string& what)
{
    unsigned res, silent = 0;
    std::stringstream ss;
    { notes::Collect coll(ss); res = a.diff(b); }
    bool twice = c.rng.chance(1, 3);
    if (twice) { silent = a.diff(b); c.check(silent == res, "notes-change-result", fmt("%u differences with notes, %u without: ", res, silent) + what); }
    if (res) c.check(!ss.str().empty(), "difference-without-note", fmt("%u differences and no note: ", res) + what);
    else c.check(ss.str().empty(), "note-without-difference", "no differences, but the notes say " + ss.str().substr(0, 300) + ": " + what);
    return res;
}

// The value of a variable as the harness sees it
std::string val(const Var& v) { return v.isset() ? v.enqs() : std::string("\1unset"); }

// Change the value of a variable, keeping its attributes; false if impossible
bool change_value(vf::Rng& r, Var& v, std::string& how)
{
    const _Varinfo& i = *v.info();
    if (!v.isset())
    {
        // give it a value
        switch (i.type)
        {
            case Vartype::String: if (!i.len) return false; v.setc("x"); break;
            case Vartype::Binary: { if (!i.len) return false; std::string b(i.len, 0); b[0] = 1; if (i.bit_len < 8) b[0] = 1; v.setc(b.c_str()); if (!v.isset()) return false; break; }
            default: if (i.imin > i.imax) return false; v.seti(r.chance(1, 3) ? i.imin : r.chance(1, 2) ? i.imax : i.imin + (int64_t)r.below((int64_t)i.imax - i.imin + 1)); break;
        }
        how = "unset to set"; return true;
    }
    if (r.chance(1, 6)) { v.unset(); how = "set to unset"; return true; }
    switch (i.type)
    {
        case Vartype::String:
        {
            std::string s = v.enqc(), o = s;
            switch (r.below(4))
            {
                case 0: if (s.empty()) return false; s[r.below(s.size())] ^= 1 << r.below(5); how = "one bit of a character"; break;
                case 1: if (s.size() >= i.len) return false; s += 'q'; how = "one more character"; break;
                case 2: if (s.size() < 2) return false; s.resize(s.size() - 1); how = "one character less"; break;
                default: if (s.empty()) return false; s[s.size() - 1] = s[s.size() - 1] == 'z' ? 'y' : 'z'; how = "last character"; break;
            }
            // trailing blanks and NULs are not stored
            if (s.find('\0') != std::string::npos || s.empty() || s.back() == ' ' || s == o) return false;
            v.setc(s.c_str());
            return std::string(v.enqc()) != o;
        }
        case Vartype::Binary:
        {
            std::string s(v.enqc(), i.len);
            unsigned bit = r.below(i.bit_len);
            s[bit / 8] ^= 1 << (bit % 8);
            std::string o(v.enqc(), i.len);
            v.setc(s.c_str());
            how = fmt("bit %u", bit);
            return std::string(v.enqc(), i.len) != o;
        }
        default:
        {
            int old = v.enqi();
            switch (r.below(4))
            {
                case 0: if (old >= i.imax) return false; v.seti(old + 1); how = "one more"; break;
                case 1: if (old <= i.imin) return false; v.seti(old - 1); how = "one less"; break;
                case 2: if (-(int64_t)old < i.imin || -(int64_t)old > i.imax || !old) return false; v.seti(-old); how = "opposite sign"; break;
                default: { int64_t n = i.imin + (int64_t)r.below((int64_t)i.imax - i.imin + 1); if (n == old) return false; v.seti(n); how = "another number"; break; }
            }
            how += fmt(" (%d, was %d)", v.enqi(), old);
            return v.enqi() != old;
        }
    }
}

// An attribute with a value
Var attr(vf::Rng& r, const Vartable& t, Varcode avoid = 0)
{
    while (true)
    {
        Varcode code = WR_VAR(0, 33, r.pick(std::vector<unsigned>{2, 3, 7, 5, 20, 40, 35}));
        if (r.chance(1, 3)) code = r.pick(std::vector<Varcode>{WR_VAR(0, 12, 101), WR_VAR(0, 1, 11), WR_VAR(0, 1, 1), WR_VAR(0, 8, 2)});
        if (code == avoid || !t.contains(code)) continue;
        Varinfo i = t.query(code);
        Var v(i);
        if (i->type == Vartype::String) v.setc("attr"); else if (i->type == Vartype::Binary) continue; else v.seti(i->imin + (int64_t)r.below((int64_t)i->imax - i->imin));
        return v;
    }
}

// Keeps only what was there before, whatever the operation does on failure
bool change_var(vf::Rng& r, const Bulletin& b, Var& v, std::string& how)
{
    const Vartable& t = *b.tables.btable;
    unsigned na = 0; for (const Var* a = v.next_attr(); a; a = a->next_attr()) ++na;
    switch (r.below(9))
    {
        case 0: case 1: case 2:
        {
            Var c(v);
            if (!change_value(r, c, how)) return false;
            v = c; how = "value: " + how; return true;
        }
        case 3: { if (!t.contains(WR_VAR(0, 33, 7)) && !t.contains(WR_VAR(0, 1, 1))) return false; Var a = attr(r, t); if (v.enqa(a.code())) return false; v.seta(a); how = "attribute added"; return true; }
        case 4:
        {
            if (!na) return false;
            const Var* a = v.next_attr(); for (unsigned k = r.below(na); k; --k) a = a->next_attr();
            Varcode c = a->code(); v.unseta(c); how = "attribute removed"; return true;
        }
        case 5: case 6:
        {
            if (!na) return false;
            const Var* a = v.next_attr(); for (unsigned k = r.below(na); k; --k) a = a->next_attr();
            Var n(a->info()); if (a->isset()) n.setval(*a);
            std::string h;
            if (!change_value(r, n, h)) return false;
            // an attribute without value can be set, but not through seta on all versions: look
            bool set = n.isset();
            v.seta(n);
            const Var* now = v.enqa(n.code());
            if (!set && now && now->isset()) return false;
            how = "attribute changed: " + h; return true;
        }
        case 7:
        {
            if (!na || (!t.contains(WR_VAR(0, 33, 7)) && !t.contains(WR_VAR(0, 1, 1)))) return false;
            const Var* a = v.next_attr(); for (unsigned k = r.below(na); k; --k) a = a->next_attr();
            Varcode c = a->code();
            Var n = attr(r, t, c);
            if (v.enqa(n.code())) return false;
            v.unseta(c); v.seta(n); how = "attribute replaced by another one"; return true;
        }
        default:
        {
            // Same unscaled number, other scale
            if (v.info()->type != Vartype::Decimal || !v.isset() || !v.enqi() || WR_VAR_F(v.code()) != 0) return false;
            int ns = v.info()->scale + (r.chance(1, 2) ? 1 : -1);
            if (!ns || ns < -16 || ns > 16 || !t.contains(v.code()) || !v.info()->bit_len) return false;
            Varinfo i;
            try { i = t.query_altered(v.code(), ns, v.info()->bit_len, v.info()->bit_ref); } catch (wreport::error&) { return false; }
            if (i->type != Vartype::Decimal || v.enqi() < i->imin || v.enqi() > i->imax) return false;
            Var n(i); n.seti(v.enqi());
            for (const Var* a = v.next_attr(); a; a = a->next_attr()) { Var x(a->info()); if (a->isset()) x.setval(*a); n.seta(x); }
            v = n; how = fmt("scale changed to %d", ns); return true;
        }
    }
}

bool change(vf::Rng& r, Bulletin& b, std::string& how, int& vs, int& vi)
{
    BufrBulletin* bb = dynamic_cast<BufrBulletin*>(&b); CrexBulletin* cb = dynamic_cast<CrexBulletin*>(&b);
    vs = vi = -1;
    switch (r.below(16))
    {
        case 0: case 1: case 2:
        {
#define FIELD(n, f, bits) case n: { auto old = (f); switch (r.below(3)) { case 0: (f) ^= 1u << r.below(bits); break; case 1: ++(f); break; default: --(f); } how = #f; return (f) != old; }
            switch (r.below(19))
            {
                FIELD(0, b.master_table_number, 8) FIELD(1, b.data_category, 8) FIELD(2, b.data_subcategory, 8) FIELD(3, b.data_subcategory_local, 8)
                FIELD(4, b.originating_centre, 16) FIELD(5, b.originating_subcentre, 16) FIELD(6, b.update_sequence_number, 8)
                FIELD(7, b.rep_year, 16) FIELD(8, b.rep_month, 8) FIELD(9, b.rep_day, 8) FIELD(10, b.rep_hour, 8) FIELD(11, b.rep_minute, 8) FIELD(12, b.rep_second, 8)
                case 13: if (bb) switch (0) { FIELD(0, bb->edition_number, 8) } else switch (0) { FIELD(0, cb->edition_number, 8) }
                case 14: if (bb) switch (0) { FIELD(0, bb->master_table_version_number, 8) } else switch (0) { FIELD(0, cb->master_table_version_number, 8) }
                case 15: if (bb) switch (0) { FIELD(0, bb->master_table_version_number_local, 8) } else switch (0) { FIELD(0, cb->master_table_version_number_local, 8) }
                case 16: if (bb) return false; switch (0) { FIELD(0, cb->master_table_version_number_bufr, 8) }
                case 17: if (bb) return false; cb->has_check_digit = !cb->has_check_digit; how = "has_check_digit"; return true;
                case 18:
                {
                    if (!bb) return false;
                    std::string& o = bb->optional_section;
                    how = "optional section";
                    if (o.empty() || r.chance(1, 3)) { o += r.chance(1, 2) ? '\0' : (char)r.below(256); return true; }
                    if (r.chance(1, 3)) { o.resize(o.size() - 1); return true; }
                    o[r.below(o.size())] ^= 1 << r.below(8); return true;
                }
            }
            return false;
        }
        case 3:
        {
            // Other tables, same header
            std::string bp = b.tables.btable ? b.tables.btable->path().string() : "", dp = b.tables.dtable ? b.tables.dtable->path().string() : "";
            const Vartable* ob = b.tables.btable; const DTable* od = b.tables.dtable;
            Tables t;
            if (bb) t.load_bufr(BufrTableID(0, 0, 0, r.range(12, 31), 0)); else t.load_crex(CrexTableID(1, 0, 0, 0, r.chance(1, 2) ? 1 : 3, 0, 0));
            if (bb && ob && od && r.chance(1, 3))
            {
                // The same files, elsewhere
                auto copy = [&](const std::string& p) {
                    static std::map<std::string, std::string> done;
                    std::string& q = done[p];
                    if (!q.empty()) return q;
                    const char* tmp = getenv("TMPDIR");
                    std::string dir = fmt("%s/diff-%d", tmp ? tmp : "/tmp", (int)getpid()); mkdir(dir.c_str(), 0700);
                    struct Remove { std::string d; std::vector<std::string> f; ~Remove() { for (auto& x : f) unlink(x.c_str()); if (!d.empty()) rmdir(d.c_str()); } };
                    static Remove rm; rm.d = dir;
                    q = dir + "/" + p.substr(p.rfind('/') + 1); rm.f.push_back(q);
                    std::ifstream in(p); std::ofstream(q) << in.rdbuf();
                    return q;
                };
                if (r.chance(1, 2)) { b.tables.btable = Vartable::load_bufr(copy(bp)); how = "table B elsewhere"; }
                else { b.tables.dtable = DTable::load_bufr(copy(dp)); how = "table D elsewhere"; }
                return true;
            }
            switch (r.below(3))
            {
                case 0: b.tables.btable = t.btable; how = "table B"; break;
                case 1: b.tables.dtable = t.dtable; how = "table D"; break;
                default: b.tables.btable = t.btable; b.tables.dtable = t.dtable; how = "tables"; break;
            }
            (void)ob; (void)od;
            return b.tables.btable->path().string() != bp || b.tables.dtable->path().string() != dp;
        }
        case 4: case 5:
        {
            auto& d = b.datadesc;
            switch (r.below(4))
            {
                case 0: d.push_back(WR_VAR(0, 1, 1)); how = "descriptor added"; return true;
                case 1: if (d.empty()) return false; d.erase(d.begin() + r.below(d.size())); how = "descriptor removed"; return true;
                case 2: if (d.empty()) return false; d[r.below(d.size())] ^= 1 << r.below(16); how = "descriptor changed"; return true;
                default: { if (d.size() < 2) return false; size_t i = r.below(d.size() - 1); if (d[i] == d[i + 1]) return false; std::swap(d[i], d[i + 1]); how = "descriptors swapped"; return true; }
            }
        }
        case 6: case 7:
        {
            auto& s = b.subsets;
            switch (r.below(3))
            {
                case 0: { Subset n(b.tables); if (!s.empty() && r.chance(1, 2)) n = s.back(); s.push_back(n); how = "subset added"; return true; }
                case 1: if (s.empty()) return false; s.erase(s.begin() + r.below(s.size())); how = "subset removed"; return true;
                default:
                {
                    if (s.size() < 2) return false;
                    size_t i = r.below(s.size()), j = r.below(s.size());
                    std::string a, c; for (auto& v : s[i]) a += cmp::dump(v) + "\n"; for (auto& v : s[j]) c += cmp::dump(v) + "\n";
                    // alterations alone are not differences
                    std::string a2, c2; for (auto& v : s[i]) a2 += val(v) + "\n"; for (auto& v : s[j]) c2 += val(v) + "\n";
                    if (a2 == c2) return false;
                    Subset t(s[i]); s[i] = s[j]; s[j] = t; how = "subsets swapped"; return true;
                }
            }
        }
        case 8: case 9:
        {
            if (b.subsets.empty()) return false;
            unsigned si = r.below(b.subsets.size());
            Subset& s = b.subsets[si];
            switch (r.below(4))
            {
                case 0: if (s.empty()) return false; s.erase(s.begin() + r.below(s.size())); how = "variable removed"; return true;
                case 1: if (s.empty()) return false; { Var v(r.pick(s)); s.push_back(v); } how = "variable added"; return true;
                case 2:
                {
                    if (s.size() < 2) return false;
                    size_t i = r.below(s.size() - 1);
                    if (s[i].code() == s[i + 1].code()) return false;
                    Var t(s[i]); s[i] = s[i + 1]; s[i + 1] = t; how = "variables swapped"; return true;
                }
                default:
                {
                    // Another code, same everything else
                    if (s.empty() || !b.tables.btable->contains(WR_VAR(0, 1, 1)) || !b.tables.btable->contains(WR_VAR(0, 1, 2))) return false;
                    size_t i = r.below(s.size());
                    Varinfo ni = b.tables.btable->query(s[i].code() == WR_VAR(0, 1, 1) ? WR_VAR(0, 1, 2) : WR_VAR(0, 1, 1));
                    Var n(ni);
                    if (s[i].isset() && (s[i].info()->type == Vartype::Integer) && s[i].enqi() >= ni->imin && s[i].enqi() <= ni->imax) n.seti(s[i].enqi());
                    for (const Var* a = s[i].next_attr(); a; a = a->next_attr()) { Var x(a->info()); if (a->isset()) x.setval(*a); n.seta(x); }
                    s[i] = n; how = "code changed"; return true;
                }
            }
        }
        default:
        {
            if (b.subsets.empty()) return false;
            unsigned si = r.chance(1, 3) ? b.subsets.size() - 1 : r.below(b.subsets.size());
            Subset& s = b.subsets[si];
            if (s.empty()) return false;
            unsigned i = r.chance(1, 4) ? s.size() - 1 : r.below(s.size());
            if (!change_var(r, b, s[i], how)) return false;
            vs = si; vi = i;
            return true;
        }
    }
}

void diff_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    Source src = gen(r);
    std::string what = src.describe();
    c.note(what);
    c.distinct(vf::fnv(src.msg));
    if (c.samples.size() < 2) c.sample(what.substr(0, 300));
    std::unique_ptr<Bulletin> a;
    try { a = src.make(); }
    catch (wreport::error&) { if (!src.corpus) throw; c.count("corpus-refused"); return; }
    if (r.chance(2, 3)) { src.attrs = r.next() | 1; a = src.make(); }
    {
        auto b = src.make();
        c.check(diff(c, *a, *b, what) == 0 && diff(c, *b, *a, what) == 0, "equal-reported-different", "two bulletins made from the same data differ: " + what);
        c.check(diff(c, *a, *a, what) == 0, "equal-reported-different", "a bulletin differs from itself: " + what);
        c.count("equal");
        // Not part of the contents
        b->fname = "elsewhere"; b->offset = 12345;
        c.check(a->diff(*b) == 0, "equal-reported-different", "bulletins from different files differ: " + what);
    }
    for (unsigned k = 0; k < 10; ++k)
    {
        auto b = src.make();
        std::string how; int vs, vi;
        bool ok;
        try { ok = change(r, *b, how, vs, vi); }
        catch (wreport::error& e) { c.count("change-failed"); continue; }
        if (!ok) { c.count("no-change"); continue; }
        c.note(how + " of " + what);
        unsigned d1 = diff(c, *a, *b, how + " of " + what), d2 = diff(c, *b, *a, how + " (other direction) of " + what);
        std::string tag = how.substr(0, how.find_first_of(":(0123456789"));
        while (!tag.empty() && tag.back() == ' ') tag.pop_back();
        c.check(d1 > 0, "difference-missed:" + tag, "not found: " + how + " of " + what);
        c.check(d2 > 0, "difference-missed-backwards:" + tag, "not found the other way: " + how + " of " + what);
        c.count("changed:" + tag);
        if (vs >= 0)
        {
            const Subset& s1 = a->subsets[vs]; const Subset& s2 = b->subsets[vs];
            c.check(s1.diff(s2) && s2.diff(s1), "subset-difference-missed:" + tag, how + " of " + what);
            const Var& v1 = s1[vi]; const Var& v2 = s2[vi];
            c.check(v1.diff(v2) && v2.diff(v1), "var-difference-missed:" + tag, how + " of " + cmp::show(v1) + " / " + cmp::show(v2));
            if (v1.info()->type == v2.info()->type)
                c.check(!(v1 == v2) && v1 != v2, "equality-disagrees:" + tag, how + ": " + cmp::show(v1) + " == " + cmp::show(v2));
            for (size_t i = 0; i < s1.size(); ++i)
                if ((int)i != vi) c.check(s1[i].diff(s2[i]) == 0 && s1[i] == s2[i], "equal-reported-different", "variable " + cmp::show(s1[i]));
        }
        // A second change does not hide the first
        if (r.chance(1, 4))
        {
            std::string how2; int x, y; bool two = false;
            // only among header fields, which cannot undo each other
            uint8_t old = b->rep_second; b->rep_second ^= 1; two = how != "b.rep_second";
            (void)old; (void)x; (void)y;
            if (two) { c.check(a->diff(*b) > 0, "difference-hidden", how + " and rep_second of " + what); c.count("two-changes"); }
        }
    }
    // Many changes: no fewer differences than places
    {
        auto b = src.make();
        unsigned places = 0; std::string how;
#define CH(f) if (r.chance(1, 4)) { ++b->f; ++places; how += " " #f; }
        CH(master_table_number) CH(data_category) CH(data_subcategory) CH(data_subcategory_local) CH(originating_centre) CH(originating_subcentre) CH(update_sequence_number)
        CH(rep_year) CH(rep_month) CH(rep_day) CH(rep_hour) CH(rep_minute) CH(rep_second)
#undef CH
        if (auto x = dynamic_cast<BufrBulletin*>(b.get()))
        {
            if (r.chance(1, 4)) { ++x->edition_number; ++places; how += " edition"; }
            if (r.chance(1, 4)) { ++x->master_table_version_number; ++places; how += " version"; }
            if (r.chance(1, 4)) { ++x->master_table_version_number_local; ++places; how += " local version"; }
            if (r.chance(1, 4)) { x->optional_section += "x"; ++places; how += " optional section"; }
        } else if (auto x = dynamic_cast<CrexBulletin*>(b.get())) {
            if (r.chance(1, 4)) { ++x->edition_number; ++places; how += " edition"; }
            if (r.chance(1, 4)) { ++x->master_table_version_number; ++places; how += " version"; }
            if (r.chance(1, 4)) { ++x->master_table_version_number_local; ++places; how += " local version"; }
            if (r.chance(1, 4)) { ++x->master_table_version_number_bufr; ++places; how += " BUFR version"; }
            if (r.chance(1, 4)) { x->has_check_digit = !x->has_check_digit; ++places; how += " check digit"; }
        }
        if (r.chance(1, 4)) { b->datadesc.push_back(WR_VAR(0, 1, 1)); ++places; how += " descriptors"; }
        for (unsigned i = 0; i < b->subsets.size(); ++i)
            if (!b->subsets[i].empty() && r.chance(1, 2))
            {
                std::string h; unsigned p = r.below(b->subsets[i].size()); Var v(b->subsets[i][p]);
                try { if (!change_value(r, v, h)) continue; } catch (wreport::error&) { continue; }
                b->subsets[i][p] = v; ++places; how += fmt(" %u[%u]", i, p);
            }
        unsigned d = diff(c, *a, *b, how + " of " + what), e = diff(c, *b, *a, how + " (other direction) of " + what);
        c.check(d >= places && e >= places, "differences-not-counted", fmt("%u/%u differences instead of %u:", d, e, places) + how + " of " + what);
        c.count("places", places);
    }
    // BUFR against CREX
    if (r.chance(1, 20))
    {
        auto x = BufrBulletin::create(); auto y = CrexBulletin::create();
        c.check(diff(c, *x, *y, "BUFR and CREX") > 0 && diff(c, *y, *x, "CREX and BUFR") > 0, "difference-missed:encoding", "a BUFR and a CREX bulletin do not differ");
        auto z = BufrBulletin::create();
        c.check(diff(c, *x, *z, "empty") == 0, "equal-reported-different", "two empty bulletins differ");
        z->load_tables();
        c.check(diff(c, *x, *z, "tables loaded") > 0 && diff(c, *z, *x, "tables loaded") > 0, "difference-missed:tables", "a bulletin with tables and one without do not differ");
        c.count("changed:encoding");
    }
}

// Pairs of variables
void vardiff_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    varpool::Synth pool;
    varpool::Entry e = varpool::any(r, pool), e2 = e;
    if (r.chance(1, 4)) e2 = varpool::any(r, pool);
    else if (r.chance(1, 3) && ref::F(e.ref.code) == 0 && (e.ref.kind == ref::DEC || e.ref.kind == ref::INT))
    {
        // the same variable with another scale
        int ns = e.ref.scale + r.range(-2, 2);
        if (ns >= -15 && ns <= 15)
        {
            pool.store.emplace_back(*e.info);
            wreport::_Varinfo& ni = pool.store.back();
            ni.set_bufr(e.ref.code, e.info->desc, e.info->unit, ns, e.ref.len, -1000000, 30);
            e2.info = &ni; e2.ref = e.ref; e2.ref.scale = ns; e2.ref.kind = ni.type == Vartype::Decimal ? ref::DEC : ref::INT; e2.ref.bit_ref = -1000000; e2.ref.bit_len = 30;
        }
    }
    else if (r.chance(1, 2) && e.ref.kind == ref::BIN && e.ref.bit_len)
    {
        // the same opaque variable with another width, mostly in the same number of bytes
        unsigned bytes = (e.ref.bit_len + 7) / 8, nb = r.chance(3, 4) ? bytes * 8 - r.below(8) : 1 + r.below(e.ref.bit_len + 8);
        pool.store.emplace_back(*e.info);
        wreport::_Varinfo& ni = pool.store.back();
        ni.set_binary(e.ref.code, e.info->desc, nb);
        e2.info = &ni; e2.ref.bit_len = nb; e2.ref.len = (nb + 7) / 8;
    }
    else if (r.chance(1, 8) && ref::F(e.ref.code) == 0)
    {
        // the same code with another type
        pool.store.emplace_back(*e.info);
        wreport::_Varinfo& ni = pool.store.back();
        unsigned k = r.below(4);
        if (k == 0) { ni.set_string(e.ref.code, e.info->desc, 8); e2.ref.kind = ref::STR; e2.ref.len = 8; }
        else if (k == 1) { ni.set_binary(e.ref.code, e.info->desc, 16); e2.ref.kind = ref::BIN; e2.ref.len = 2; e2.ref.bit_len = 16; }
        else { ni.set_bufr(e.ref.code, e.info->desc, k == 2 ? "CODE TABLE" : "K", 0, 5, 0, 16); e2.ref.kind = k == 2 ? ref::INT : ref::DEC; e2.ref.scale = 0; e2.ref.bit_ref = 0; e2.ref.bit_len = 16; }
        e2.info = &ni;
    }
    struct Val { bool set = false; int64_t i = 0; std::string s; };
    auto give = [&](Var& v, const ref::BInfo& i, Val& x, const Val* like, const ref::BInfo* li) {
        x = Val();
        if (r.chance(1, 8)) return;
        switch (i.kind)
        {
            case ref::STR:
            {
                if (!i.len) return;
                std::string s; unsigned n = 1 + r.below(std::min(i.len, 8u)); for (unsigned k = 0; k < n; ++k) s += (char)('a' + r.below(3));
                if (like && like->set && r.chance(1, 2)) s = like->s.substr(0, i.len);
                if (s.empty()) return;
                v.setc(s.c_str()); x.set = true; x.s = s; break;
            }
            case ref::BIN:
            {
                std::string s((i.bit_len + 7) / 8, 0); for (auto& ch : s) ch = r.below(4);
                if (like && like->set && r.chance(1, 2) && like->s.size() == s.size()) s = like->s;
                if (i.bit_len % 8) s.back() &= (1 << (i.bit_len % 8)) - 1;
                if (!i.bit_len) return;
                v.sets(s); x.set = true; x.s = std::string(v.enqc(), s.size()); break;
            }
            default:
            {
                int64_t lo = v.info()->imin, hi = v.info()->imax;
                if (lo > hi) return;
                int64_t n = lo + (int64_t)r.below(hi - lo + 1);
                if (r.chance(1, 2)) n = std::min(hi, std::max(lo, (int64_t)r.range(-20, 20)));
                if (like && like->set && r.chance(2, 3)) { n = like->i; if (li && r.chance(1, 2)) { for (int k = li->scale; k < i.scale && std::abs(n) < 100000000000; ++k) n *= 10; for (int k = i.scale; k < li->scale; ++k) n /= 10; } }
                if (n < lo || n > hi) return;
                v.seti(n); x.set = true; x.i = n;
            }
        }
    };
    Var a(e.info), b(e2.info);
    Val va, vb;
    give(a, e.ref, va, nullptr, nullptr);
    give(b, e2.ref, vb, &va, &e.ref);
    // attributes: a few codes with few values
    static Varinfo qi = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0))->query(WR_VAR(0, 33, 7));
    static Varinfo ci = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0))->query(WR_VAR(0, 33, 2));
    static Varinfo ti = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0))->query(WR_VAR(0, 12, 101));
    std::string aa, ab;
    for (Varinfo i : {ti, ci, qi})
    {
        int x = r.below(3), y = r.chance(3, 4) ? x : (int)r.below(3);
        if (x) a.seta(Var(i, x)); if (y) b.seta(Var(i, y));
        aa += fmt("%d,", x); ab += fmt("%d,", y);
    }
    bool same_val = va.set == vb.set;
    if (va.set && vb.set) switch (e.ref.kind)
    {
        case ref::STR: case ref::BIN: same_val = va.s == vb.s && (e.ref.kind != ref::BIN || e.ref.bit_len == e2.ref.bit_len); break;
        default:
        {
            __int128 x = va.i, y = vb.i;
            for (int k = e.ref.scale; k < e2.ref.scale; ++k) x *= 10;
            for (int k = e2.ref.scale; k < e.ref.scale; ++k) y *= 10;
            same_val = x == y;
        }
    }
    bool same = e.ref.code == e2.ref.code && e.info->type == e2.info->type && same_val && aa == ab;
    bool comparable = e.info->type == e2.info->type || e.ref.code != e2.ref.code;
    std::string what = cmp::show(a) + " / " + cmp::show(b);
    c.note(what);
    c.distinct(vf::fnv(what));
    if (comparable)
    {
        std::stringstream ss; unsigned d, d2;
        { notes::Collect coll(ss); d = a.diff(b); }
        c.check((d == 0) == same, same ? "equal-vars-reported-different" : "different-vars-reported-equal", fmt("%u differences: ", d) + what);
        if (d) c.check(!ss.str().empty(), "difference-without-note", what);
        else c.check(ss.str().empty(), "note-without-difference", what);
        d2 = b.diff(a);
        c.check((d2 == 0) == same, same ? "equal-vars-reported-different" : "different-vars-reported-equal", fmt("%u differences the other way: ", d2) + what);
        c.check((a == b) == same && (b == a) == same && (a != b) == !same, "equality-wrong", what);
        bool vs = e.ref.code == e2.ref.code && same_val;
        if (e.ref.code == e2.ref.code) c.check(a.value_equals(b) == vs && b.value_equals(a) == vs, "value-equals-wrong", what);
        c.count(same ? "vars-equal" : "vars-different");
        if (e.ref.kind == ref::BIN && e2.ref.kind == ref::BIN && e.ref.bit_len != e2.ref.bit_len) c.count("opaque-other-width");
        if (e.info->scale != e2.info->scale) c.count(same ? "vars-equal-other-scale" : "vars-different-other-scale");
    } else if (va.set && vb.set) {
        // different types: never the same, except numbers, which can be equal
        bool num = (e.ref.kind == ref::INT || e.ref.kind == ref::DEC) && (e2.ref.kind == ref::INT || e2.ref.kind == ref::DEC);
        std::stringstream ss; unsigned d;
        { notes::Collect coll(ss); d = a.diff(b); }
        c.check(d && !ss.str().empty(), "other-type-reported-equal", fmt("%u differences: ", d) + what);
        c.check(b.diff(a), "other-type-reported-equal", "no differences the other way: " + what);
        if (!num) c.check(!(a == b) && a != b && !(b == a) && !a.value_equals(b) && !b.value_equals(a), "equality-wrong", what);
        c.count("vars-other-type");
    }
}

void diff_setup(vf::Ctx& c) { cmp::setup_crex(c); ref::bufr_corpus(); ref::crex_corpus(); }
void vardiff_setup(vf::Ctx& c) { varpool::setup(c); }

vf::Reg r1("diff", diff_case, diff_setup), r2("vardiff", vardiff_case, vardiff_setup);

}
