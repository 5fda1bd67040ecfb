// C14: the result of decoding depends only on the message.  Every message is
// first decoded in a process that has never used the library; then over and
// over, among other work, in processes that have used it a lot.
#include "crexutil.h"
#include "cmp.h"
#include "mutate.h"
#include <wreport/bulletin/dds-validator.h>
#include <wreport/conv.h>
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <csignal>
#include <sys/wait.h>
#include <unistd.h>
using namespace wreport;
using vf::fmt;

namespace {

struct Sent { bool crex = false; bool undef = false; std::string msg; };
struct Known { Sent s; std::string full, head; unsigned uses = 0; };

std::string header(const Bulletin& b)
{
    std::string s = fmt("%s mt%u cat%u/%u/%u ce%u/%u usn%u %u-%u-%u %u:%u:%u ", b.encoding_name(), b.master_table_number, b.data_category, b.data_subcategory,
        b.data_subcategory_local, b.originating_centre, b.originating_subcentre, b.update_sequence_number, b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second);
    if (const BufrBulletin* x = dynamic_cast<const BufrBulletin*>(&b))
        s += fmt("ed%u mtv%u/%u comp%d opt%s", x->edition_number, x->master_table_version_number, x->master_table_version_number_local, x->compression, vf::hex(x->optional_section).c_str());
    if (const CrexBulletin* x = dynamic_cast<const CrexBulletin*>(&b))
        s += fmt("ed%u mtv%u/%u/%u check%d", x->edition_number, x->master_table_version_number, x->master_table_version_number_bufr, x->master_table_version_number_local, x->has_check_digit);
    for (auto c : b.datadesc) s += fmt(" %04x", c);
    s += fmt("\n%s\n%s\n", b.tables.btable ? b.tables.btable->path().c_str() : "-", b.tables.dtable ? b.tables.dtable->path().c_str() : "-");
    return s;
}
std::string whole(const Bulletin& b)
{
    std::string s = header(b);
    for (auto& sub : b.subsets)
    {
        s += "subset\n";
        for (auto& v : sub)
        {
            s += cmp::dump(v);
            s += fmt(" [%d..%d %.17g..%.17g %s|%s]\n", v.info()->imin, v.info()->imax, v.info()->dmin, v.info()->dmax, v.info()->desc, v.info()->unit);
        }
    }
    return s;
}
std::string ends(const Bulletin& b)
{
    std::string s;
    if (const BufrBulletin* x = dynamic_cast<const BufrBulletin*>(&b)) for (unsigned i = 0; i < 6; ++i) s += fmt("%u,", x->section_end[i]);
    return s;
}

enum Entry { FULL, HEAD, VERBOSE, OPTS };
template<typename Fn> std::string attempt(Fn fn)
{
    try { return fn(); }
    catch (wreport::error& e) { return fmt("error %d", (int)e.code()); }
    catch (std::bad_alloc&) { throw; }
    catch (std::exception& e) { return std::string("foreign exception ") + e.what(); }
}
std::unique_ptr<Bulletin> decode(const Sent& s, const std::string& m, Entry e, const char* fname = "history", size_t off = 0)
{
    if (s.crex) switch (e)
    {
        case HEAD: return CrexBulletin::decode_header(m, fname, off);
        case VERBOSE: return CrexBulletin::decode_verbose(m, vf::devnull(), fname, off);
        default: return CrexBulletin::decode(m, fname, off);
    }
    if (e == VERBOSE && !s.undef) return BufrBulletin::decode_verbose(m, vf::devnull(), fname, off);
    if (s.undef || e == OPTS)
    {
        auto o = BufrCodecOptions::create();
        o->decode_adds_undef_attrs = s.undef;
        if (e == HEAD) return BufrBulletin::decode_header(m, *o, fname, off);
        return BufrBulletin::decode(m, *o, fname, off);
    }
    if (e == HEAD) return BufrBulletin::decode_header(m, fname, off);
    return BufrBulletin::decode(m, fname, off);
}
std::string wrong_origin; // what a bulletin says about where it comes from, if wrong
std::string result(const Sent& s, const std::string& m, Entry e)
{
    static const char* names[] = { "history", "some where.bufr", "", "(x)%s" };
    const char* name = names[m.size() % 4]; size_t off = m.size() % 3 ? m.size() * 1000003ull : 0;
    return attempt([&] { auto b = decode(s, m, e, name, off);
        if (b->fname != name || (size_t)b->offset != off) wrong_origin = fmt("entry point %d: %s:%zu instead of %s:%zu", (int)e, b->fname.c_str(), (size_t)b->offset, name, off);
        return e == HEAD ? header(*b) : whole(*b) + ends(*b); });
}

// ---- server of results from unused processes

int to_srv = -1, from_srv = -1;
bool rd(int fd, void* p, size_t n) { char* c = (char*)p; while (n) { ssize_t k = read(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
bool wr(int fd, const void* p, size_t n) { const char* c = (const char*)p; while (n) { ssize_t k = write(fd, c, n); if (k <= 0) return false; c += k; n -= k; } return true; }
bool wrs(int fd, const std::string& s) { uint64_t n = s.size(); return wr(fd, &n, 8) && wr(fd, s.data(), n); }
bool rds(int fd, std::string& s) { uint64_t n; if (!rd(fd, &n, 8)) return false; s.resize(n); return rd(fd, &s[0], n); }

void start_server()
{
    int a[2], b[2];
    if (pipe(a) || pipe(b)) throw std::runtime_error("pipe");
    signal(SIGPIPE, SIG_IGN);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("fork");
    if (pid == 0)
    {
        close(a[1]); close(b[0]);
        std::string flags, msg;
        while (rds(a[0], flags) && rds(a[0], msg))
        {
            pid_t p = fork();
            if (p == 0)
            {
                Sent s; s.crex = flags[0] == 'c'; s.undef = flags[1] == 'u';
                bool head = flags[2] == 'h';
                // one decode only: not even the header is decoded before
                std::string r = result(s, cmp::tight(msg), head ? HEAD : FULL);
                wrs(b[1], r);
                _exit(0);
            }
            int st; waitpid(p, &st, 0);
            if (!WIFEXITED(st) || WEXITSTATUS(st) != 0) wrs(b[1], "died");
        }
        _exit(0);
    }
    close(a[0]); close(b[1]);
    to_srv = a[1]; from_srv = b[0];
}
std::string fresh(const Sent& s, bool head)
{
    std::string flags; flags += s.crex ? 'c' : 'b'; flags += s.undef ? 'u' : '-'; flags += head ? 'h' : 'f';
    std::string r;
    if (!wrs(to_srv, flags) || !wrs(to_srv, s.msg) || !rds(from_srv, r)) throw std::runtime_error("server of fresh results lost");
    return r;
}

// ---- messages

// Messages made of few elements under many operators and tables, so that
// everything that is cached is asked for in several variants
std::string family(vf::Rng& r)
{
    static const std::vector<ref::Code> el{ref::mk(0, 12, 1), ref::mk(0, 12, 101), ref::mk(0, 7, 30), ref::mk(0, 10, 4), ref::mk(0, 2, 1), ref::mk(0, 20, 3),
        ref::mk(0, 5, 1), ref::mk(0, 1, 11), ref::mk(0, 1, 19), ref::mk(0, 4, 1), ref::mk(0, 8, 2), ref::mk(0, 33, 7), ref::mk(0, 5, 192), ref::mk(0, 12, 193)};
    std::vector<ref::Code> dd;
    unsigned n = 1 + r.below(5);
    for (unsigned i = 0; i < n; ++i)
    {
        ref::Code c = r.pick(el);
        switch (r.below(9))
        {
            case 0: { unsigned y = r.range(126, 134); dd.push_back(ref::mk(2, 1, y)); dd.push_back(c); dd.push_back(ref::mk(2, 1, 0)); break; }
            case 1: { unsigned y = r.range(126, 131); dd.push_back(ref::mk(2, 2, y)); dd.push_back(c); dd.push_back(ref::mk(2, 2, 0)); break; }
            case 2: dd.push_back(ref::mk(2, 7, r.range(1, 3))); dd.push_back(c); dd.push_back(ref::mk(2, 7, 0)); break;
            case 3: dd.push_back(ref::mk(2, 8, r.range(1, 12))); dd.push_back(ref::mk(0, 1, r.chance(1, 2) ? 11 : 19)); dd.push_back(ref::mk(2, 8, 0)); break;
            case 4: dd.push_back(ref::mk(2, 6, r.range(1, 24))); dd.push_back(r.chance(1, 2) ? ref::mk(0, 63, r.range(192, 195)) : c); break;
            case 5: dd.push_back(ref::mk(2, 5, r.range(1, 6))); break;
            case 6: dd.push_back(ref::mk(1, 1, r.range(1, 3))); dd.push_back(c); break;
            case 7: dd.push_back(ref::mk(3, 1, r.pick(std::vector<unsigned>{1, 11, 12, 13, 21, 23}))); break;
            default: dd.push_back(c); break;
        }
    }
    bool comp = r.chance(1, 4); unsigned subs = r.chance(1, 2) ? 1 : 1 + r.below(3);
    if (r.chance(1, 6) && !comp)
    {
        // quality information on everything
        unsigned q = dd.size();
        dd.push_back(ref::mk(2, 22, 0)); dd.push_back(ref::mk(1, 1, std::min(q, 4u))); dd.push_back(ref::mk(0, 31, 31));
        dd.push_back(ref::mk(1, 1, 1)); dd.push_back(ref::mk(0, 33, 7));
    }
    std::string data(80 + r.below(80), 0);
    for (auto& c : data) c = r.chance(1, 2) ? 0 : r.chance(1, 3) ? 0x20 : r.below(256);
    if (comp) for (auto& c : data) if (r.chance(3, 4)) c = 0;
    static const std::vector<std::vector<unsigned>> ids{{0, 0}, {98, 0}, {98, 1}, {98, 2}, {98, 101}, {254, 1}, {85, 1}, {200, 0}, {255, 1}, {0, 1}};
    auto id = r.pick(ids);
    return mut::bufr_assemble(r.chance(1, 3) ? 3 : 4, r.pick(std::vector<unsigned>{12, 13, 14, 16, 19, 24, 29, 33, 5, 0, 11, 40}), subs, comp, dd, data, r.chance(1, 6), "opt", id[0], r.below(2), id[1]);
}

std::vector<Known> store;
std::vector<std::pair<std::unique_ptr<Bulletin>, std::string>> held;

bool light(const std::string& m)
{
    if (m.size() > 6000) return false;
    ref::Layout l = ref::layout(m);
    if (l.dd.empty()) return true;
    double w = ref::silent_work(l.dd, ref::wmo_bufr(33).d);
    double tot = w * (1 + l.subsets) + (l.compressed ? (double)(m.size() * 8) / 7 * l.subsets : m.size() * 8);
    return tot < 3e5;
}

Sent gen(vf::Rng& r)
{
    Sent s;
    while (true)
    {
        s.crex = r.chance(1, 4);
        if (s.crex)
        {
            switch (r.below(4))
            {
                case 0: s.msg = r.pick(ref::crex_corpus()).data; break;
                case 1: { auto g = ref::gen_crex(r); s.msg = r.chance(1, 2) ? g.msg : g.canonical; break; }
                case 2: s.msg = mut::crex(r, r.pick(ref::crex_corpus()).data); break;
                default: { auto g = ref::gen_crex(r); s.msg = mut::crex(r, g.msg); break; }
            }
            unsigned big = 0;
            for (size_t i = 0; i + 6 <= s.msg.size() && i < 400; ++i) if (s.msg[i] == 'R' && isdigit((unsigned char)s.msg[i + 1])) ++big;
            if (big > 3 || s.msg.size() > 6000) continue;
            return s;
        }
        s.undef = r.chance(1, 10);
        switch (r.below(6))
        {
            case 0: s.msg = r.pick(ref::bufr_corpus()).data; break;
            case 1: s.msg = ref::gen_bufr(r).msg; break;
            case 2: s.msg = mut::bufr(r, r.pick(ref::bufr_corpus()).data); break;
            case 3: s.msg = mut::bufr(r, ref::gen_bufr(r).msg); break;
            default: s.msg = family(r); break;
        }
        if (light(s.msg)) return s;
    }
}

struct Hook : public options::DomainErrorHook
{
    void handle_domain_error_int(Var& v, int32_t) override { v.unset(); }
    void handle_domain_error_double(Var& v, double) override { v.unset(); }
};

// Other things done by the process
void disturb(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    unsigned what = r.below(12);
    try
    {
        switch (what)
        {
            case 0: if (!store.empty()) { const Known& k = r.pick(store); std::string m = k.s.msg.substr(0, r.below(k.s.msg.size() + 1)); decode(k.s, cmp::tight(m), FULL); } break;
            case 1: if (!store.empty()) { const Known& k = r.pick(store); Sent s = k.s; s.undef = !s.undef; decode(s, cmp::tight(k.s.msg), r.chance(1, 2) ? FULL : OPTS); } break;
            case 2: if (!store.empty()) { options::LocalOverride<bool> o(options::var_silent_domain_errors, true); const Known& k = r.pick(store); decode(k.s, cmp::tight(k.s.msg), FULL); } break;
            case 3: if (!store.empty()) { options::LocalOverride<bool> o(options::var_clamp_domain_errors, true); const Known& k = r.pick(store); decode(k.s, cmp::tight(k.s.msg), VERBOSE); } break;
            case 4: if (!store.empty()) { Hook h; options::LocalOverride<options::DomainErrorHook*> o(options::var_hook_domain_errors, &h); const Known& k = r.pick(store); decode(k.s, cmp::tight(k.s.msg), FULL); } break;
            case 5: if (!held.empty()) r.pick(held).first->encode(); break;
            case 6: if (!held.empty()) { auto& b = *r.pick(held).first; b.print(vf::devnull()); b.print_structured(vf::devnull()); b.print_datadesc(vf::devnull()); } break;
            case 7: if (!held.empty())
            {
                auto& b = *r.pick(held).first;
                if (!b.tables.btable || b.subsets.empty() || b.subsets[0].empty()) break;
                Varcode code = r.pick(b.subsets[0]).code();
                if (WR_VAR_F(code) != 0) break;
                Varinfo i = b.tables.btable->query(code);
                b.tables.btable->query_altered(code, i->scale + r.range(-2, 2), i->type == Vartype::String ? 8 * r.range(1, 20) : i->bit_len + r.range(-2, 2), std::abs((long)i->bit_ref) < 100000000 && r.chance(1, 3) ? i->bit_ref * 10 : i->bit_ref);
                break;
            }
            case 8: if (held.size() > 1) { auto& a = r.pick(held); auto& b = r.pick(held); a.first->diff(*b.first); } break;
            case 9: if (!held.empty()) { auto& b = *r.pick(held).first; if (!b.subsets.empty()) { bulletin::DDSValidator v(b, r.below(b.subsets.size())); v.run(); } } break;
            case 10: convert_units("K", r.chance(1, 2) ? "C" : "no such unit", 20.0); break;
            case 11: if (!held.empty())
            {
                // Change a copy of what was decoded
                auto& b = *r.pick(held).first;
                if (b.subsets.empty() || b.subsets[0].empty()) break;
                Var v(r.pick(b.subsets[0]));
                if (r.chance(1, 2)) v.unset(); else v.clear_attrs();
                if (b.tables.btable && b.tables.btable->contains(WR_VAR(0, 33, 7))) v.seta(Var(b.tables.btable->query(WR_VAR(0, 33, 7)), (int)r.below(100)));
                break;
            }
        }
    } catch (wreport::error&) { c.count("disturbance-failed"); }
    c.count("disturbances");
}

void held_unchanged(vf::Ctx& c, const char* when)
{
    for (auto& h : held)
    {
        c.check(whole(*h.first) == h.second, "bulletin-altered", std::string("a bulletin decoded earlier has changed ") + when + ": was " + h.second.substr(0, 2000) + " is " + whole(*h.first).substr(0, 2000));
        c.count("bulletins-rechecked");
    }
}

std::string describe(const Sent& s) { return fmt("%s%s ", s.crex ? "CREX" : "BUFR", s.undef ? " (keeping undefined attributes)" : "") + vf::hex(s.msg, 1500); }
std::string brief(const std::string& want, const std::string& got)
{
    size_t p = 0; while (p < want.size() && p < got.size() && want[p] == got[p]) ++p;
    size_t a = p > 60 ? p - 60 : 0;
    return fmt("at %zu: expected ", p) + vf::jstr(want.substr(a, 200)) + " got " + vf::jstr(got.substr(a, 200));
}

void judge(vf::Ctx& c, Known& k)
{
    vf::Rng& r = c.rng;
    c.note(describe(k.s));
    bool ok = k.full.compare(0, 6, "error ") != 0 && k.full.compare(0, 7, "foreign") != 0;
    std::string what = fmt("(use %u) ", k.uses) + describe(k.s);
    ++k.uses;
    switch (r.below(8))
    {
        case 0: case 1: case 2:
        {
            // in place, at an odd address, with something behind
            std::string m = r.chance(1, 2) ? cmp::tight(k.s.msg) : k.s.msg;
            std::string before = m;
            std::unique_ptr<Bulletin> keep;
            std::string got = attempt([&] { keep = decode(k.s, m, FULL); return whole(*keep) + ends(*keep); });
            c.check(got == k.full, "decode-differs", what + " " + brief(k.full, got));
            c.check(m == before, "input-changed", what);
            if (keep && r.chance(1, 4) && keep->subsets.size() < 50)
            {
                std::string w = whole(*keep);
                if (held.size() < 12) held.emplace_back(std::move(keep), w);
                else { auto& h = held[r.below(held.size())]; h.first = std::move(keep); h.second = w; }
            }
            c.count(ok ? "same:decode" : "same:error");
            break;
        }
        case 3: case 4:
        {
            std::string got = result(k.s, cmp::tight(k.s.msg), HEAD);
            c.check(got == k.head, "header-differs", what + " " + brief(k.head, got));
            if (ok) c.check(k.full.compare(0, got.size(), got) == 0, "header-not-as-decode", what + " " + brief(k.full.substr(0, got.size()), got));
            else if (got.compare(0, 6, "error ") == 0) c.check(got == k.full, "header-error-differs", what + " header only: " + got + ", in full: " + k.full);
            c.count("same:header");
            break;
        }
        case 5:
        {
            std::string got = result(k.s, cmp::tight(k.s.msg), VERBOSE);
            c.check(got == k.full, "verbose-differs", what + " " + brief(k.full, got));
            c.count("same:verbose");
            break;
        }
        case 6:
        {
            std::string got = result(k.s, cmp::tight(k.s.msg), OPTS);
            c.check(got == k.full, "options-differ", what + " " + brief(k.full, got));
            c.count("same:options");
            break;
        }
        case 7:
        {
            // Through a file, with its name and offset
            FILE* f = tmpfile();
            if (!f) throw std::runtime_error("tmpfile");
            std::string pad(r.below(30), '\n');
            fwrite(pad.data(), 1, pad.size(), f); fwrite(k.s.msg.data(), 1, k.s.msg.size(), f); rewind(f);
            std::string m; off_t off = -1;
            bool found = false;
            try { found = k.s.crex ? CrexBulletin::read(f, m, "file", &off) : BufrBulletin::read(f, m, "file", &off); } catch (wreport::error&) {}
            fclose(f);
            // damaged messages can be delimited otherwise
            if (!found || m.compare(0, std::string::npos, k.s.msg, 0, m.size()) != 0 || (m.size() != k.s.msg.size() && ok && !k.s.crex)) { c.count("not-readable"); break; }
            if (!k.s.crex && m.size() != k.s.msg.size()) { c.count("not-readable"); break; }
            if (k.s.crex && !ok) { c.count("not-readable"); break; }
            std::string name; size_t o = 0;
            std::string got = attempt([&] { auto b = decode(k.s, m, FULL, "some file", off); name = b->fname; o = b->offset; return whole(*b) + ends(*b); });
            c.check(got == k.full, "file-differs", what + " " + brief(k.full, got));
            if (ok) c.check(name == "some file" && (off_t)o == off, "origin-differs", what + " comes from " + name + fmt(":%zu", o));
            c.count("same:file");
            break;
        }
    }
}

void hist_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    for (unsigned n = store.size() < 8 ? 4 : 1 + r.below(2); n > 0; --n)
    {
        Known k; k.s = gen(r);
        c.note(describe(k.s));
        k.full = fresh(k.s, false); k.head = fresh(k.s, true);
        // a crash is what C01 and C02 look for
        if (k.full == "died" || k.head == "died") { c.count("fresh-died"); continue; }
        c.distinct(vf::fnv(k.s.msg));
        c.count(k.full.compare(0, 5, "error") == 0 ? "fresh:error" : "fresh:decoded");
        if (store.size() < 300) store.push_back(k); else store[r.below(store.size())] = k;
    }
    if (c.samples.size() < 2 && !store.empty()) c.sample(describe(store.back().s).substr(0, 300));
    unsigned steps = 20 + r.below(30);
    for (unsigned i = 0; i < steps && !store.empty(); ++i)
    {
        if (r.chance(1, 3)) disturb(c);
        wrong_origin.clear();
        judge(c, store[r.chance(1, 3) ? store.size() - 1 - r.below(std::min<size_t>(store.size(), 4)) : r.below(store.size())]);
        c.check(wrong_origin.empty(), "origin-differs", wrong_origin);
    }
    held_unchanged(c, "at the end of the case");
    if (held.size() > 6) held.erase(held.begin() + r.below(held.size()));
}
void hist_setup(vf::Ctx& c)
{
    start_server();
    cmp::setup_crex(c);
    ref::bufr_corpus(); ref::crex_corpus();
}
vf::Reg r1("history", hist_case, hist_setup);

}
