// The wrep tool (C18).  Its sources are built into this driver with main
// renamed; every case runs it in a child process, on files made of good,
// damaged and foreign data, and compares its standard output, standard error
// and exit status with what the library gives for the same messages.
#include "crexutil.h"
#include "cmp.h"
#include "mutate.h"
#include <wreport/bulletin/dds-scanfeatures.h>
#include <wreport/dtable.h>
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/internals/tabledir.h>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
#include <algorithm>
#include <iostream>
using namespace wreport;
using vf::fmt;

int vf_wrep_main(int argc, char** argv);
extern "C" int vf_alt_main(int argc, char** argv) { static char name[] = "wrep"; argv[0] = name; return vf_wrep_main(argc, argv); }

namespace {

struct NullBuf : public std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullbuf; std::ostream notes_out(&nullbuf);

void put_file(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f) != 0) throw std::runtime_error("cannot write " + path);
}

struct Ran { int status = 0; std::string out, err; };

// Run wrep with these arguments, in a child or in a new process
Ran run(const std::vector<std::string>& args, bool fresh)
{
    Ran res;
    std::string base = fmt("wrep.%d", (int)getpid()), fo = base + ".stdout", fe = base + ".stderr";
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("cannot fork");
    if (pid == 0)
    {
        int o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), i = open("/dev/null", O_RDONLY);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        rlimit rl{60, 65}; setrlimit(RLIMIT_CPU, &rl);
        std::vector<char*> argv; std::vector<std::string> a = args;
        a.insert(a.begin(), "wrep"); if (fresh) a.insert(a.begin() + 1, "--as-wrep");
        for (auto& s : a) argv.push_back(const_cast<char*>(s.c_str()));
        argv.push_back(nullptr);
        if (fresh) { execv("/proc/self/exe", argv.data()); _exit(98); }
        int rc = 99;
        try { rc = vf_wrep_main(a.size(), argv.data()); } catch (...) { fputs("\nVERIF: exception out of main\n", stderr); }
        fflush(stdout); fflush(stderr); std::cout.flush(); std::cerr.flush();
        _exit(rc);
    }
    while (waitpid(pid, &res.status, 0) < 0) if (errno != EINTR) throw std::runtime_error("cannot wait");
    res.out = vf::read_file(fo); res.err = vf::read_file(fe);
    unlink(fo.c_str()); unlink(fe.c_str());
    return res;
}

// Text written by the library, and the error it ended with
template<typename Fn> std::string text_of(Fn fn, std::string& err)
{
    char* b = nullptr; size_t n = 0;
    FILE* f = open_memstream(&b, &n);
    try { fn(f); } catch (std::exception& e) { err = e.what(); }
    fclose(f);
    std::string s(b, n); free(b); return s;
}

// The dump of a bulletin, written from its members
void dump_head(const Bulletin& b, std::string& s)
{
    const BufrBulletin* bu = dynamic_cast<const BufrBulletin*>(&b);
    const CrexBulletin* cr = dynamic_cast<const CrexBulletin*>(&b);
    s += fmt("%s %d:%d:%d %d:%d %04d-%02d-%02d %02d:%02d:%02d %d %zu subsets\n", bu ? "BUFR" : "CREX", (int)b.data_category, (int)b.data_subcategory, (int)b.data_subcategory_local, (int)b.originating_centre, (int)b.originating_subcentre,
        (int)b.rep_year, (int)b.rep_month, (int)b.rep_day, (int)b.rep_hour, (int)b.rep_minute, (int)b.rep_second, (int)b.update_sequence_number, b.subsets.size());
    s += fmt(" Tables: %s %s\n", b.tables.btable->path().c_str(), b.tables.dtable->path().c_str());
    s += " Data descriptors:\n";
    for (auto c : b.datadesc) s += fmt("  %u%02u%03u\n", ref::F(c), ref::X(c), ref::Y(c));
    if (bu) s += fmt(" BUFR details: ed%d t%d:%d:%d %c osl%zu\n", (int)bu->edition_number, (int)b.master_table_number, (int)bu->master_table_version_number, (int)bu->master_table_version_number_local, bu->compression ? 'c' : '-', bu->optional_section.size());
    else s += fmt(" CREX details: ed%d t%d:%d:%d:%d %c\n", (int)cr->edition_number, (int)b.master_table_number, (int)cr->master_table_version_number, (int)cr->master_table_version_number_local, (int)cr->master_table_version_number_bufr, cr->has_check_digit ? 'C' : '-');
    s += " Variables:\n";
}
std::string one(const Var& v) { return fmt("%u%02u%03u %s(%s): ", ref::F(v.code()), ref::X(v.code()), ref::Y(v.code()), v.info()->desc, v.info()->unit) + v.format("(undef)") + "\n"; }
std::string with_attrs(const Var& v)
{
    std::string s = one(v);
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) s += "           " + one(*a);
    return s;
}
std::string dump_text(const Bulletin& b)
{
    std::string s; dump_head(b, s);
    for (size_t i = 0; i < b.subsets.size(); ++i)
        for (size_t j = 0; j < b.subsets[i].size(); ++j)
            s += fmt("  [%zu][%zu] ", i, j) + with_attrs(b.subsets[i][j]);
    return s;
}

// Features of a list of descriptors.  Replications that define bitmaps may or
// may not be listed
struct Features
{
    std::set<std::string> must, may;
    const DTable& d; unsigned steps = 0; bool ok = true;
    Features(const DTable& d) : d(d) {}
    static std::string n(Varcode v) { return fmt("%c%02u%03u", "BRCD"[ref::F(v)], ref::X(v), ref::Y(v)); }
    static std::vector<Varcode> vec(const Opcodes& o) { std::vector<Varcode> v; for (unsigned i = 0; i < o.size(); ++i) v.push_back(o[i]); return v; }
    void walk(const std::vector<Varcode>& ops, int depth = 0)
    {
        bool bitmap = false;
        for (size_t i = 0; i < ops.size(); ++i)
        {
            if (++steps > 20000 || depth > 20) { ok = false; return; }
            Varcode c = ops[i];
            switch (ref::F(c))
            {
                case 0: break;
                case 1:
                {
                    size_t p = i + 1; std::string name = "Rxxyyy";
                    if (!ref::Y(c))
                    {
                        if (p >= ops.size()) { ok = false; return; }
                        // without a factor, as CREX allows, the library picks one
                        if (ref::F(ops[p]) != 0 || ref::X(ops[p]) != 31) { name = "Rxx000:B31012"; }
                        else { name = "Rxx000:" + n(ops[p]); ++p; }
                    }
                    size_t count = ref::X(c);
                    if (p + count > ops.size()) { ok = false; return; }
                    std::vector<Varcode> sub(ops.begin() + p, ops.begin() + p + count);
                    if (bitmap || (sub.size() == 1 && sub[0] == WR_VAR(0, 31, 31))) may.insert(name); else must.insert(name);
                    walk(sub, depth + 1);
                    i = p + count - 1;
                    break;
                }
                case 2:
                    if (ref::X(c) == 6 && i + 1 < ops.size() && ref::F(ops[i + 1]) != 0) { ok = false; return; }
                    if (ref::X(c) == 6) must.insert(i + 1 < ops.size() ? n(c) + ":" + n(ops[i + 1]) : n(c));
                    else must.insert(n(c));
                    break;
                default:
                    try { walk(vec(d.query(c)), depth + 1); } catch (wreport::error&) { ok = false; return; }
            }
            bitmap = ref::F(c) == 2 && ref::X(c) >= 22 && ref::X(c) <= 37;
        }
    }
};

enum Act { DUMP, TRACE, STRUCT, DDS, PRINT, UNPARSABLE, TABLES, FEATURES };
const char* act_names[] = { "dump", "trace", "structure", "dds", "print", "unparsable", "tables", "features" };
const char* act_short[] = { "-d", "-t", "-s", "-D", "-p", "-U", "-T", "-F" };

struct Piece { std::string data; bool message = false; };
struct Input { std::string name; bool exists = true, dir = false, truth = true; std::string data; std::vector<std::pair<size_t, std::string>> msgs; };

std::string garbage(vf::Rng& r)
{
    std::string s;
    unsigned n = r.chance(1, 3) ? 0 : r.below(40);
    for (unsigned i = 0; i < n; ++i)
    {
        char c = r.chance(1, 4) ? "\r\n\0\3 "[r.below(5)] : (char)r.below(256);
        if (c == 'B' || c == 'C' || c == '+' || c == '7') c = '.';
        s += c;
    }
    return s;
}

std::string bufr_message(vf::Ctx& c, bool& good)
{
    vf::Rng& r = c.rng; good = true;
    std::string m;
    switch (r.below(6))
    {
        case 0: case 1: { const ref::Msg* p = &r.pick(ref::bufr_corpus()); for (unsigned i = 0; i < 4 && p->data.size() > 3000; ++i) p = &r.pick(ref::bufr_corpus()); m = p->data; break; }
        case 2: case 3: m = ref::gen_bufr(r).msg; break;
        case 4: m = mut::bufr(r, ref::gen_bufr(r).msg); good = false; break;
        default: { const ref::Msg* p = &r.pick(ref::bufr_corpus()); for (unsigned i = 0; i < 4 && p->data.size() > 3000; ++i) p = &r.pick(ref::bufr_corpus()); m = mut::bufr(r, p->data); good = false; }
    }
    return m;
}
std::string crex_message(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    std::string m;
    switch (r.below(5))
    {
        case 0: return r.pick(ref::crex_corpus()).data;
        case 1: case 2: { auto g = ref::gen_crex(r); m = r.chance(1, 2) ? g.msg : g.canonical; break; }
        case 3: return mut::crex(r, r.pick(ref::crex_corpus()).data);
        default: m = mut::crex(r, ref::gen_crex(r).msg);
    }
    // up to the end mark, as reading gives it
    size_t p = m.find("7777", m.size() > 12 ? m.size() - 12 : 0);
    if (p != std::string::npos) m.resize(p + 4);
    return m;
}
bool framed(const std::string& m, bool crex)
{
    if (crex)
    {
        if (m.size() < 20 || m.compare(0, 6, "CREX++") != 0 || m.compare(m.size() - 9, 9, "++\r\r\n7777") != 0) return false;
        if (m.find("7777") != m.size() - 4) return false;
        return m.find("CREX", 4) == std::string::npos;
    }
    if (m.size() < 12 || m.size() > 0xffffff || m.compare(0, 4, "BUFR") != 0) return false;
    return ref::get3(m, 4) == m.size();
}

Input make_input(vf::Ctx& c, unsigned no, bool crex)
{
    vf::Rng& r = c.rng;
    static const char* names[] = { "in%u.bufr", "in %u file", "in%u%%s%%n%%d", "in%u:12:x", "in%u\tx", "./in%u", "in%u-\xc3\xa8" };
    Input in; in.name = fmt(names[r.chance(1, 2) ? 0 : r.below(7)], no);
    if (r.chance(1, 12)) { in.exists = false; in.name = r.chance(1, 2) ? "missing/" + in.name : in.name + ".missing"; return in; }
    if (r.chance(1, 30)) { in.dir = true; in.truth = false; in.name = "."; return in; }
    unsigned n = r.chance(1, 12) ? 0 : 1 + r.below(r.chance(1, 5) ? 10 : 4);
    for (unsigned i = 0; i < n; ++i)
    {
        in.data += garbage(r);
        if (r.chance(1, 6)) // the other format
        {
            bool g;
            std::string f = crex ? bufr_message(c, g) : crex_message(c);
            if (f.find(crex ? "CREX" : "BUFR") == std::string::npos) { in.data += f; c.count("foreign"); }
            in.data += garbage(r);
            while (!in.data.empty() && (in.data.back() == 'B' || in.data.back() == 'C')) in.data.pop_back();
        }
        bool g = true;
        std::string m = crex ? crex_message(c) : bufr_message(c, g);
        if (!framed(m, crex)) in.truth = false;
        in.msgs.push_back({in.data.size(), m});
        in.data += m;
    }
    in.data += garbage(r);
    if (r.chance(1, 15) && !in.data.empty() && n) { in.data.resize(r.below(in.data.size())); in.truth = false; c.count("cut"); }
    put_file(in.name, in.data);
    return in;
}

struct Expected { std::string out; std::vector<std::string> err; };

struct Tables_header { bool printed = false; };

// What must be shown for a message
void message(vf::Ctx& c, Act act, bool crex, const std::vector<Varcode>& codes, const std::string& raw, const std::string& fname, long offset, Expected& e, Tables_header& th)
{
    auto report = [&](const std::string& what) { e.err.push_back(act == UNPARSABLE ? what : fmt("%s:%ld:", fname.c_str(), offset) + what); };
    std::unique_ptr<Bulletin> b;
    bool head = !crex && (act == DDS || act == TABLES || act == FEATURES);
    std::string err;
    try
    {
        if (act == TRACE && !crex)
        {
            e.out += text_of([&](FILE* f) { b = BufrBulletin::decode_verbose(raw, f, fname.c_str(), offset); }, err);
            if (!err.empty()) { report(err); c.count("reported"); } else c.count("shown:trace");
            return;
        }
        if (crex) b = CrexBulletin::decode(raw, fname.c_str(), offset);
        else if (head) b = BufrBulletin::decode_header(raw, fname.c_str(), offset);
        else b = BufrBulletin::decode(raw, fname.c_str(), offset);
    } catch (std::exception& x) {
        report(x.what());
        if (act == UNPARSABLE) { e.out += raw; c.count("unparsable"); }
        c.count("reported");
        return;
    }
    c.count(std::string("shown:") + act_names[act]);
    switch (act)
    {
        case DUMP: e.out += dump_text(*b); break;
        case STRUCT:
        {
            std::string s = text_of([&](FILE* f) { b->print_structured(f); }, err);
            std::string h; dump_head(*b, h);
            c.check(s.compare(0, h.size(), h) == 0, "structure-head", s.substr(0, 500) + "\ninstead of\n" + h);
            if (err.empty())
            {
                // every variable, in order
                size_t pos = h.size();
                for (auto& sub : b->subsets) for (auto& v : sub)
                {
                    std::string t = with_attrs(v);
                    size_t p = s.find(t, pos);
                    if (p == std::string::npos) { c.check(false, "structure-variable", t + " not found in " + s.substr(0, 3000)); }
                    pos = p + t.size();
                    c.count("structure-variables");
                }
            }
            e.out += s;
            if (!err.empty()) report(err);
            break;
        }
        case DDS:
            e.out += text_of([&](FILE* f) { b->print_datadesc(f); }, err);
            if (!err.empty()) report(err);
            break;
        case PRINT:
            for (size_t i = 0; i < b->subsets.size(); ++i)
            {
                e.out += fmt("%s:%zu:", fname.c_str(), i + 1);
                for (auto code : codes)
                    for (auto& v : b->subsets[i])
                        if (v.code() == code) { e.out += "\t" + v.format(); c.count("values-printed"); break; }
                e.out += "\n";
            }
            break;
        case TABLES:
        {
            if (!th.printed)
            {
                std::string f = "Filename";
                if (crex) e.out += f + "\tOffset\tMaster\tEdition\tTable\n";
                else { while (f.size() < fname.size()) f += ' '; e.out += f + "\tOffset\tCentre\tSubc.\tMaster\tLocal\n"; }
                th.printed = true;
            }
            // from the octets of the message where they are known
            if (crex)
            {
                auto* m = dynamic_cast<CrexBulletin*>(b.get());
                e.out += fmt("%s\t%ld\t%u\t%u\t%u\n", fname.c_str(), offset, m->master_table_number, m->edition_number, m->master_table_version_number);
            } else {
                auto* m = dynamic_cast<BufrBulletin*>(b.get());
                e.out += fmt("%s\t%ld\t%u\t%u\t%u\t%u\n", fname.c_str(), offset, m->originating_centre, m->originating_subcentre, m->master_table_version_number, m->master_table_version_number_local);
            }
            break;
        }
        case FEATURES:
        {
            bulletin::ScanFeatures scan(b->tables, b->datadesc);
            try { scan.run(); } catch (std::exception& x) { report(x.what()); break; }
            Features f(*b->tables.dtable);
            f.walk(b->datadesc);
            if (f.ok)
            {
                std::string got; for (auto& x : scan.features) got += x + " ";
                for (auto& m : f.must) c.check(scan.features.count(m), "feature-missing", m + " not in " + got);
                for (auto& g : scan.features) c.check(f.must.count(g) || f.may.count(g), "feature-extra", g + " in " + got);
                c.count("features-compared");
            }
            std::string l; for (auto& x : scan.features) l += (l.empty() ? "" : ",") + x;
            e.out += fmt("%s:%ld:", fname.c_str(), offset) + l + "\n";
            break;
        }
        default: break;
    }
}

std::vector<std::string> lines(const std::string& s)
{
    std::vector<std::string> res; size_t p = 0;
    while (p < s.size()) { size_t e = s.find('\n', p); if (e == std::string::npos) { res.push_back(s.substr(p)); break; } res.push_back(s.substr(p, e - p)); p = e + 1; }
    return res;
}
std::string around(const std::string& a, const std::string& b)
{
    size_t i = 0; while (i < a.size() && i < b.size() && a[i] == b[i]) ++i;
    size_t s = i > 80 ? i - 80 : 0;
    return fmt("at byte %zu of %zu and %zu: %s instead of %s", i, a.size(), b.size(), vf::jstr(a.substr(s, 240)).c_str(), vf::jstr(b.substr(s, 240)).c_str());
}
std::string joined(const std::vector<std::string>& a) { std::string s = "wrep"; for (auto& x : a) s += " " + vf::jstr(x); return s; }

void alive(vf::Ctx& c, const Ran& r, const std::string& cmd)
{
    if (WIFSIGNALED(r.status) && (WTERMSIG(r.status) == SIGXCPU || WTERMSIG(r.status) == SIGKILL)) { c.count("cpu-limit"); throw vf::Stop(); }
    bool died = !WIFEXITED(r.status) || WEXITSTATUS(r.status) > 1 || r.err.find("AddressSanitizer") != std::string::npos || r.err.find("runtime error:") != std::string::npos;
    if (died)
    {
        size_t p = r.err.find("ERROR: AddressSanitizer"); if (p == std::string::npos) p = r.err.find("runtime error:"); if (p == std::string::npos) p = 0;
        c.failstop("crash", fmt("status 0x%x: ", r.status) + cmd + "\n" + r.err.substr(p > 200 ? p - 200 : 0, 3000));
    }
}

// Options as a user would type them
std::vector<std::string> spell(vf::Rng& r, Act act, bool crex, bool verbose, const std::string& codes)
{
    std::vector<std::string> a;
    std::vector<std::string> others;
    // an earlier action is overridden by a later one
    if (r.chance(1, 10)) { Act o = (Act)r.below(8); if (o != PRINT) others.push_back(act_short[o]); }
    auto put = [&](const char* s, const std::string& l) { a.push_back(r.chance(1, 3) ? "--" + l : r.chance(1, 8) ? "--" + l.substr(0, std::max<size_t>(4, l.size() - 2)) : std::string(s)); };
    for (auto& o : others) a.push_back(o);
    if (!(act == DUMP && others.empty() && r.chance(1, 2)))
    {
        if (act == PRINT)
        {
            if (r.chance(1, 3)) a.push_back("--print=" + codes);
            else if (r.chance(1, 2)) a.push_back("-p" + codes);
            else { a.push_back("-p"); a.push_back(codes); }
            if (codes.empty() && a.back() == "-p") a.push_back(codes);
        } else put(act_short[act], act_names[act]);
    }
    std::vector<std::string> flags;
    if (crex) flags.push_back(r.chance(1, 3) ? "--crex" : "-c");
    if (verbose) flags.push_back(r.chance(1, 3) ? "--verbose" : "-v");
    for (auto& f : flags) { if (r.chance(1, 2)) a.push_back(f); else a.insert(a.begin(), f); }
    return a;
}

void files_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    bool crex = r.chance(1, 3), verbose = r.chance(1, 6);
    Act act = (Act)r.below(8);
    if (r.chance(1, 6)) act = UNPARSABLE;
    std::vector<Input> inputs;
    unsigned n = r.chance(2, 3) ? 1 : 1 + r.below(4);
    for (unsigned i = 0; i < n; ++i) inputs.push_back(make_input(c, i, crex));
    // Codes to print: of variables that are there, and of some that are not
    std::string codes; std::vector<Varcode> want; bool bad_codes = false;
    if (act == PRINT)
    {
        std::vector<Varcode> there;
        for (auto& in : inputs) for (auto& m : in.msgs) try { std::unique_ptr<Bulletin> b; if (crex) b = CrexBulletin::decode(m.second); else b = BufrBulletin::decode(m.second); for (auto& s : b->subsets) for (auto& v : s) there.push_back(v.code()); if (there.size() > 200) break; } catch (std::exception&) {}
        unsigned k = r.below(6);
        for (unsigned i = 0; i < k; ++i)
        {
            Varcode v = there.empty() || r.chance(1, 5) ? (Varcode)WR_VAR(r.below(4), r.below(64), r.below(256)) : r.pick(there);
            if (!codes.empty()) codes += ",";
            if (r.chance(1, 5)) codes += fmt("%u%02u%03u", ref::F(v), ref::X(v), ref::Y(v));
            else codes += fmt("%c%02u%03u", "BRCD"[ref::F(v)], ref::X(v), ref::Y(v));
            want.push_back(v);
        }
        if (r.chance(1, 12)) { static const char* bad[] = { "X01001", "B0100x", ",B01001", "foobar", "B01001,zzzzzz", "-10010", "B99999" }; codes = bad[r.below(7)]; bad_codes = true; }
        else if (r.chance(1, 10) && !codes.empty()) codes += ",";
        // The same rule as the library for what a code is
        if (bad_codes)
        {
            bool thrown = false; want.clear();
            try { const char* s = codes.c_str(); while (s && *s && strlen(s) >= 6) { want.push_back(varcode_parse(s)); s = strchr(s, ','); if (s && *s) ++s; } } catch (std::exception&) { thrown = true; }
            bad_codes = thrown;
        }
    }
    std::vector<std::string> args = spell(r, act, crex, verbose, codes);
    size_t fpos = args.size();
    if (r.chance(1, 8) && !args.empty() && act != PRINT) fpos = 0; // options after files
    if (r.chance(1, 10) && fpos) { args.push_back("--"); ++fpos; }
    for (auto& in : inputs) args.insert(args.begin() + fpos++, in.name);
    std::string cmd = joined(args);
    c.note(cmd); if (c.case_no < 4) c.sample(cmd);
    bool fresh = r.chance(1, 16);

    if (bad_codes)
    {
        Ran got = run(args, fresh);
        alive(c, got, cmd);
        c.check(WEXITSTATUS(got.status) == 1 && got.out.empty() && !got.err.empty(), "invalid-codes", cmd + ": " + got.out.substr(0, 300) + got.err.substr(0, 300));
        c.count("invalid-codes");
        return;
    }

    Expected e; Tables_header th;
    for (auto& in : inputs)
    {
        if (verbose) e.err.push_back("Reading from " + in.name);
        FILE* f = fopen(in.name.c_str(), "rb");
        if (!f) { e.err.push_back("\1" + in.name + ":"); c.count("unreadable"); continue; }
        std::string raw; off_t off; size_t k = 0;
        std::string name = in.name;
        try
        {
            while (crex ? CrexBulletin::read(f, raw, name.c_str(), &off) : BufrBulletin::read(f, raw, name.c_str(), &off))
            {
                if (in.truth)
                {
                    c.check(k < in.msgs.size() && (size_t)off == in.msgs[k].first && raw == in.msgs[k].second, "read-message",
                        fmt("message %zu at %ld, %zu bytes, is not the one written: ", k, (long)off, raw.size()) + cmd);
                }
                ++k;
                c.distinct(vf::fnv(raw, act * 2 + crex));
                c.count("messages");
                message(c, act, crex, want, raw, in.name, off, e, th);
            }
            if (in.truth) { c.check(k == in.msgs.size(), "read-messages", fmt("%zu messages instead of %zu: ", k, in.msgs.size()) + cmd); c.count("files-complete"); }
        } catch (std::exception& x) {
            fclose(f);
            if (dynamic_cast<wreport::error*>(&x) == nullptr) throw;
            if (in.truth) c.check(false, "read-error", std::string(x.what()) + ": " + cmd);
            e.err.push_back("\1" + in.name + ":"); c.count("read-errors");
            continue;
        }
        fclose(f);
    }
    Ran got = run(args, fresh);
    alive(c, got, cmd);
    for (auto& in : inputs) if (in.exists && !in.dir) unlink(in.name.c_str());
    c.check(WEXITSTATUS(got.status) == 0, "exit-status", fmt("%d: ", WEXITSTATUS(got.status)) + cmd + ": " + got.err.substr(0, 500));
    c.check(got.out == e.out, std::string("stdout:") + act_names[act], around(got.out, e.out) + ": " + cmd);
    // Standard error: these lines, and with -v also others in between
    std::vector<std::string> want_lines; std::vector<bool> want_prefix;
    for (auto& x : e.err) { bool prefix = !x.empty() && x[0] == '\1'; std::vector<std::string> ls = lines(prefix ? x.substr(1) : x + "\n"); if (ls.empty()) ls.push_back(""); for (size_t i = 0; i < ls.size(); ++i) { want_lines.push_back(ls[i]); want_prefix.push_back(prefix && i == 0); } }
    std::vector<std::string> ls = lines(got.err);
    size_t w = 0;
    if (verbose)
    {
        // some notes have no newline at the end
        size_t p = 0;
        for (; w < want_lines.size(); ++w)
        {
            std::string l = want_prefix[w] ? want_lines[w] : want_lines[w] + "\n";
            size_t f = got.err.find(l, p);
            if (f == std::string::npos) break;
            p = f + l.size();
        }
    }
    else for (size_t i = 0; i < ls.size(); ++i)
    {
        bool match = w < want_lines.size() && (want_prefix[w] ? ls[i].compare(0, want_lines[w].size(), want_lines[w]) == 0 : ls[i] == want_lines[w]);
        if (match) ++w;
        else c.check(false, "stderr-extra", vf::jstr(ls[i]) + (w < want_lines.size() ? " instead of " + vf::jstr(want_lines[w]) : " at the end") + ": " + cmd);
    }
    c.check(w == want_lines.size(), "stderr-missing", vf::jstr(w < want_lines.size() ? want_lines[w] : "") + " not reported: " + cmd + "\n" + got.err.substr(0, 1000));
    c.count(std::string("runs:") + act_names[act] + (crex ? ":crex" : ":bufr"));
    if (fresh) c.count("fresh-processes");
    if (verbose) c.count("verbose");
    c.count("reports", e.err.size());
}

void other_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    std::vector<std::string> args;
    bool fresh = r.chance(1, 4);
    unsigned k = r.below(6);
    std::string want_out; bool want_help = false; int rc = 0;
    switch (k)
    {
        case 0: args = { r.chance(1, 2) ? "-h" : "--help" }; want_help = true; break;
        case 1: args = { r.chance(1, 2) ? "-i" : "--info" }; break;
        case 2: { args = { r.chance(1, 2) ? "-L" : "--list-tables" }; std::string err; want_out = text_of([&](FILE* f) { tabledir::Tabledirs::get().print(f); }, err); break; }
        case 3: { static const char* bad[] = { "-Z", "--nothing", "-", "--dump=1", "-p", "--print", "-x", "--", "-dZ", "--t", "" }; args = { bad[r.below(11)] }; rc = -1; break; }
        case 4: { static const char* as[] = { "-d", "-U", "-c", "-v", "-F", "-T", "-s", "-t", "-D" }; if (r.chance(3, 4)) args.push_back(as[r.below(9)]); rc = 1; break; } // no file
        default: // anything
        {
            unsigned n = r.below(6);
            for (unsigned i = 0; i < n; ++i)
            {
                static const char* as[] = { "-d", "-U", "-c", "-v", "-F", "-T", "-s", "-t", "-D", "-pB01001", "-p", "--print", "-i", "-L", "-h", "--", "nofile", "/dev/null", ".", "-Q", "-cF", "-vU", "-dtsDUTFL", "", "--crex", "--pri=B12101,B01001" };
                args.push_back(as[r.below(26)]);
            }
            rc = -1;
        }
    }
    std::string cmd = joined(args);
    c.note(cmd); c.distinct(vf::fnv(cmd));
    Ran got = run(args, fresh);
    alive(c, got, cmd);
    if (rc >= 0) c.check(WEXITSTATUS(got.status) == rc, "exit-status", fmt("%d instead of %d: ", WEXITSTATUS(got.status), rc) + cmd);
    if (k == 4) c.check(got.out.empty() && !got.err.empty(), "no-file", cmd + ": " + got.out.substr(0, 200));
    if (k == 2) { c.check(got.out == want_out && got.err.empty(), "list-tables", around(got.out, want_out)); c.check(got.out.find("B0000000000000024000.txt") != std::string::npos || got.out.find("24") != std::string::npos, "list-tables-empty", got.out.substr(0, 300)); }
    if (want_help) for (const char* o : { "--crex", "--dump", "--trace", "--structure", "--dds", "--print", "--unparsable", "--tables", "--features", "--list-tables", "--info", "--verbose" })
        c.check(got.out.find(o) != std::string::npos && got.err.empty(), "help", std::string(o) + " is not in the help");
    if (k == 1) { const char* t = getenv("WREPORT_TABLES"); c.check(got.err.empty() && (!t || got.out.find(t) != std::string::npos), "info", got.out); }
    c.count(fmt("other:%u", k));
}

void wrep_case(vf::Ctx& c)
{
    notes::Collect collect(notes_out);
    if (c.rng.chance(1, 20)) other_case(c); else files_case(c);
}

void setup(vf::Ctx& c)
{
    cmp::setup_crex(c);
    // Each worker in a directory of its own
    const char* t = getenv("TMPDIR");
    std::string d = std::string(t ? t : "/tmp") + fmt("/wrep.%d", (int)getpid());
    if (mkdir(d.c_str(), 0700) != 0 || chdir(d.c_str()) != 0) throw std::runtime_error("cannot use " + d);
}
vf::Reg r1("wrep", wrep_case, setup);

}
