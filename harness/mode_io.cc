// C12: choice of tables among the installed ones
// C13: reading and writing streams of messages
#include "cmp.h"
#include <wreport/internals/tabledir.h>
#include <wreport/tableinfo.h>
#include <wreport/error.h>
#include <algorithm>
#include <cerrno>
#include <dirent.h>
#include <unistd.h>
#include <sys/stat.h>
#include <sys/wait.h>
using namespace wreport;
using vf::fmt;

namespace {

// ---------------------------------------------------------------- C12

struct TFile { int dir; std::string name; bool crex; unsigned ed, ce, sc, mt, mtv, lt; };
struct Req { bool crex; unsigned ed, ce, sc, mt, mtv, lt, mtvb; };

std::string show(const Req& q)
{
    return q.crex ? fmt("CREX request edition %u centre %u:%u master table %u version %u local %u bufr %u", q.ed, q.ce, q.sc, q.mt, q.mtv, q.lt, q.mtvb)
                  : fmt("BUFR request centre %u:%u master table %u version %u local %u", q.ce, q.sc, q.mt, q.mtv, q.lt);
}

typedef std::vector<long> Rank;
// Lower is better; `v` is the version to be compared first
Rank rank(const Req& q, const TFile& t, long v)
{
    Rank r{v};
    int cm = t.ce == q.ce ? 0 : t.ce == 0 ? 1 : t.ce == 0xffff ? 2 : 3;
    r.push_back(cm);
    if (cm != 0) { r.push_back(0); r.push_back(0); r.push_back(0); return r; }
    if (q.lt == 0) { r.push_back(0); r.push_back(0); }
    else if (t.lt >= q.lt) { r.push_back(0); r.push_back(t.lt - q.lt); }
    else { r.push_back(1); r.push_back(q.lt - t.lt); }
    r.push_back(t.sc == q.sc ? 0 : 1);
    return r;
}
// Indices of the files that serve the request best
std::vector<size_t> best(const Req& q, const std::vector<TFile>& fs)
{
    std::vector<size_t> bb, bc; Rank rb, rc;
    for (size_t i = 0; i < fs.size(); ++i)
    {
        const TFile& t = fs[i];
        if (t.mt != q.mt) continue;
        if (t.crex)
        {
            if (!q.crex || t.ed != q.ed || t.mtv < q.mtv || q.mtvb > 0) continue;
            Rank r = rank(q, t, t.mtv);
            if (bc.empty() || r < rc) { bc = {i}; rc = r; } else if (r == rc) bc.push_back(i);
        } else {
            if (t.mtv < (q.crex ? q.mtvb : q.mtv)) continue;
            Rank r = rank(q, t, t.mtv);
            if (bb.empty() || r < rb) { bb = {i}; rb = r; } else if (r == rb) bb.push_back(i);
        }
    }
    if (bc.empty()) return bb;
    if (bb.empty()) return bc;
    // A CREX table against a BUFR one, by BUFR version
    Rank a = rank(q, fs[bb[0]], fs[bb[0]].mtv), b = rank(q, fs[bc[0]], 0);
    return a <= b ? bb : bc;
}

std::string bline(const std::string& desc)
{
    std::string d = desc; d.resize(64, ' ');
    return " 001001 " + d + " NUMERIC                    0            0   7 NUMERIC                      0        3\n";
}
void touch(const std::string& p, const std::string& data)
{
    FILE* f = fopen(p.c_str(), "wb");
    if (!f) throw std::runtime_error("cannot write " + p);
    fwrite(data.data(), 1, data.size(), f);
    fclose(f);
}
void wipe(const std::string& d)
{
    DIR* h = opendir(d.c_str());
    if (!h) return;
    while (dirent* e = readdir(h)) { std::string n = e->d_name; if (n != "." && n != "..") unlink((d + "/" + n).c_str()); }
    closedir(h);
    rmdir(d.c_str());
}
struct Dirs
{
    std::vector<std::string> d;
    Dirs(vf::Ctx& c, int n, const char* tag)
    {
        const char* t = getenv("TMPDIR");
        // Names can be the beginning of others, and directories be inside others
        std::string base = fmt("%s/td-%d-%llu-%s", t ? t : "/tmp", (int)getpid(), (unsigned long long)c.case_no, tag);
        unsigned style = c.rng.below(5);
        for (int i = 0; i < n; ++i)
        {
            std::string name = base;
            switch (style)
            {
                case 0: name += "/" + std::string(i, 'x'); break;
                case 1: name += "/" + std::string(n - 1 - i, 'x'); break;
                case 2: for (int k = 0; k <= i; ++k) name += "/s"; break;
                case 3: for (int k = i; k < n; ++k) name += "/s"; break;
                default: name += fmt("/%d", i); break;
            }
            while (name.back() == '/') name.pop_back();
            d.push_back(name);
        }
        made = d; made.push_back(base);
        std::sort(made.begin(), made.end());
        for (auto& x : made) mkdir(x.c_str(), 0700);
    }
    std::vector<std::string> made;
    ~Dirs() { for (auto i = made.rbegin(); i != made.rend(); ++i) wipe(*i); }
};

void fill(vf::Rng& r, const Dirs& dirs, std::vector<TFile> fs, const std::vector<std::pair<int, std::string>>& others, bool contents)
{
    std::vector<std::pair<int, std::string>> todo = others;
    for (auto& f : fs) { todo.push_back({f.dir, f.name}); todo.push_back({f.dir, "D" + f.name.substr(1)}); }
    for (size_t i = todo.size(); i > 1; --i) std::swap(todo[i - 1], todo[r.below(i)]);
    for (auto& t : todo)
    {
        std::string data;
        if (contents) data = t.second[0] == 'D' ? std::string(" D01001  1 B01001 \n") : bline(t.second + fmt(" in %d", t.first));
        touch(dirs.d[t.first] + "/" + t.second, data);
    }
}

Req gen_req(vf::Rng& r, const std::vector<TFile>& fs)
{
    Req q; q.crex = r.chance(1, 3);
    if (!fs.empty() && r.chance(3, 4))
    {
        const TFile& t = r.pick(fs);
        q.ed = t.ed; q.ce = t.ce; q.sc = t.sc; q.mt = t.mt; q.mtv = t.mtv; q.lt = t.lt; q.mtvb = t.crex ? 0 : t.mtv;
        if (t.crex && r.chance(3, 4)) q.crex = true;
        if (!t.crex) q.ed = r.range(1, 2);
        for (int k = r.below(3); k > 0; --k)
            switch (r.below(6))
            {
                case 0: q.ce = r.pick(std::vector<unsigned>{0, 98, 200, 255, 0xffff, 1}); break;
                case 1: q.sc = r.below(4); break;
                case 2: if (q.mtv) --q.mtv; break;
                case 3: ++q.mtv; break;
                case 4: q.lt = r.below(6); break;
                default: q.mtvb = r.below(30); break;
            }
        if (r.chance(1, 20)) q.mt = r.below(12);
    } else {
        q.ed = r.range(1, 3); q.ce = r.chance(1, 3) ? 0 : r.pick(std::vector<unsigned>{0, 98, 200, 255, 0xffff, 1}); q.sc = r.below(4);
        q.mt = r.chance(1, 10) ? r.below(12) : 0; q.mtv = r.below(30); q.lt = r.chance(1, 2) ? 0 : r.below(8); q.mtvb = r.chance(1, 2) ? 0 : r.below(30);
    }
    q.mtv &= 0xff; q.mtvb &= 0xff;
    return q;
}

const tabledir::Table* ask(tabledir::Tabledirs& t, const Req& q)
{
    if (q.crex) return t.find_crex(CrexTableID(q.ed, q.ce, q.sc, q.mt, q.mtv, q.mtvb, q.lt));
    return t.find_bufr(BufrTableID(q.ce, q.sc, q.mt, q.mtv, q.lt));
}

void check_answer(vf::Ctx& c, const Req& q, const std::vector<TFile>& fs, const Dirs& dirs, const tabledir::Table* t, int& chosen)
{
    auto want = best(q, fs);
    auto list = [&]{ std::string s; for (auto& f : fs) s += fmt(" %d/%s", f.dir, f.name.c_str()); return s; };
    chosen = -1;
    if (!t)
    {
        c.check(want.empty(), "table-not-found", show(q) + " gives nothing, instead of " + (want.empty() ? "" : fs[want[0]].name) + "; available:" + list());
        c.count("served-none");
        return;
    }
    std::string got = t->btable_pathname.string();
    for (size_t i = 0; i < fs.size(); ++i) if (dirs.d[fs[i].dir] + "/" + fs[i].name == got) chosen = i;
    c.check(chosen >= 0, "table-unknown", show(q) + " gives " + got + ", which is not one of" + list());
    c.check(!want.empty(), "table-unacceptable", show(q) + " gives " + got + ", but none is acceptable of" + list());
    c.check(std::find(want.begin(), want.end(), (size_t)chosen) != want.end(), "table-not-closest", show(q) + fmt(" gives %d/%s instead of %d/%s; available:", fs[chosen].dir, fs[chosen].name.c_str(), fs[want[0]].dir, fs[want[0]].name.c_str()) + list());
    // A table in a directory takes the place of those with the same name in the next ones
    for (auto& f : fs) if (f.name == fs[chosen].name)
    {
        c.check(f.dir >= fs[chosen].dir, "table-of-next-directory", show(q) + fmt(" gives %s of directory %d and not of %d; available:", f.name.c_str(), fs[chosen].dir, f.dir) + list());
        if (f.dir > fs[chosen].dir) c.count("same-name");
    }
    std::string dp = dirs.d[fs[chosen].dir] + "/D" + fs[chosen].name.substr(1);
    c.check(t->dtable_pathname.string() == dp, "table-d", show(q) + " gives D table " + t->dtable_pathname.string() + " with B table " + got);
    c.count(q.crex ? (fs[chosen].crex ? "served-crex-crex" : "served-crex-bufr") : "served-bufr");
    if (want.size() > 1) c.count("served-tie");
}

void tabledir_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    int nd = r.chance(1, 3) ? r.range(3, 5) : r.range(1, 2);
    std::vector<TFile> fs; std::set<std::pair<int, std::string>> used;
    unsigned n = r.range(0, 14), span = r.chance(1, 2) ? 4 : 26;
    for (unsigned i = 0; i < n; ++i)
    {
        TFile t{}; t.dir = r.below(nd);
        t.crex = r.chance(1, 4);
        if (t.crex)
        {
            t.ed = r.range(1, 2); t.mt = r.chance(1, 8) ? r.below(12) : 0; t.mtv = r.chance(1, 8) ? 0 : r.range(1, span);
            t.name = fmt("B%02u%02u%02u.txt", t.mt, t.ed, t.mtv);
        } else {
            t.ce = r.chance(1, 2) ? 0 : r.pick(std::vector<unsigned>{98, 200, 255, 1, 85});
            t.sc = r.chance(1, 2) ? 0 : r.below(4); t.mtv = r.chance(1, 10) ? 0 : 10 + r.below(span); t.lt = r.chance(1, 2) ? 0 : r.below(8);
            if (r.chance(1, 3)) t.name = fmt("B00000%03u%03u%02u%02u.txt", t.sc, t.ce, t.mtv, t.lt);
            else { if (r.chance(1, 10)) t.ce = r.range(256, 9999); t.name = fmt("B00000%04u%04u%03u%03u.txt", t.sc, t.ce, t.mtv, t.lt); }
        }
        if (used.insert({t.dir, t.name}).second) fs.push_back(t);
    }
    std::vector<std::pair<int, std::string>> others;
    for (unsigned i = r.below(4); i > 0; --i) others.push_back({(int)r.below(nd), r.pick(std::vector<std::string>{"B0000000000000099000.csv", "README.txt", "Bxxyyzz.txt", "B00.txt", "D0000000000000050000.txt", "B000000000000001100.txt", "local.txt", "B0000000000000014000.txt~"})});
    std::string all; for (auto& f : fs) all += fmt(" %d/%s", f.dir, f.name.c_str());
    c.note("available:" + all);

    std::vector<Req> reqs; for (unsigned i = r.range(4, 25); i > 0; --i) reqs.push_back(gen_req(r, fs));
    Dirs d1(c, nd, "a"), d2(c, nd, "b");
    fill(r, d1, fs, others, true);
    fill(r, d2, fs, others, true);
    tabledir::Tabledirs t1, t2;
    for (auto& d : d1.d) t1.add_directory(r.chance(1, 4) ? d + "/" : d);
    if (r.chance(1, 4)) t1.add_directory(d1.d[0]);   // again
    for (auto& d : d2.d) t2.add_directory(d);
    std::vector<int> first;
    for (auto& q : reqs) { int k; check_answer(c, q, fs, d1, ask(t1, q), k); first.push_back(k); }
    // Same requests, in another order, with another order of creation of the files, and again from the cache
    std::vector<size_t> ord; for (size_t i = 0; i < reqs.size(); ++i) { ord.push_back(i); if (r.chance(1, 3)) ord.push_back(i); }
    for (size_t i = ord.size(); i > 1; --i) std::swap(ord[i - 1], ord[r.below(i)]);
    for (auto i : ord)
    {
        int k; check_answer(c, reqs[i], fs, d2, ask(t2, reqs[i]), k);
        c.check(k == first[i], "table-choice-unstable", show(reqs[i]) + fmt(" gives %s in one directory and %s in an equal one; available:", first[i] < 0 ? "nothing" : fs[first[i]].name.c_str(), k < 0 ? "nothing" : fs[k].name.c_str()) + all);
        check_answer(c, reqs[i], fs, d1, ask(t1, reqs[i]), k);
        c.check(k == first[i], "table-choice-unstable", show(reqs[i]) + " changes when repeated; available:" + all);
    }
    c.count("requests", reqs.size() + 2 * ord.size());
    c.distinct(vf::fnv(all + show(reqs[0])));
    if (c.samples.size() < 3) c.sample(show(reqs[0]) + " with" + all + " -> " + (first[0] < 0 ? "none" : fs[first[0]].name));
    // By name
    for (auto& f : fs)
    {
        if (!r.chance(1, 3)) continue;
        const tabledir::Table* t = t1.find(f.name.substr(0, f.name.size() - 4));
        c.check(t && t->btable_id + ".txt" == f.name, "table-by-name", f.name + " is not found by name");
        int at = 0; while (!used.count({at, f.name})) ++at;  // the first that has it
        c.check(t->btable_pathname.string() == d1.d[at] + "/" + f.name, "table-by-name", f.name + " by name gives " + t->btable_pathname.string());
        c.count("by-name");
    }
    c.check(!t1.find("B9999999"), "table-by-name", "a table that does not exist is found by name");

    // What is told about a search, and the list of tables
    if (r.chance(1, 4))
    {
        auto text = [&](std::function<void(FILE*)> f) { char* b = nullptr; size_t n = 0; FILE* o = open_memstream(&b, &n); f(o); fclose(o); std::string s(b, n); free(b); return s; };
        for (unsigned i = 0; i < 3; ++i)
        {
            const Req& q = r.pick(reqs);
            const tabledir::Table* t = ask(t1, q);
            std::string ex = text([&](FILE* o) { if (q.crex) t1.explain_find_crex(CrexTableID(q.ed, q.ce, q.sc, q.mt, q.mtv, q.mtvb, q.lt), o); else t1.explain_find_bufr(BufrTableID(q.ce, q.sc, q.mt, q.mtv, q.lt), o); });
            std::string id = t ? text([&](FILE* o) { t->print_id(o); }) : "none";
            std::string want = "Result chosen: " + id + "\n";
            c.check(ex.size() >= want.size() && ex.compare(ex.size() - want.size(), want.size(), want) == 0, "table-explained", show(q) + " is explained as " + vf::jstr(ex.size() > 200 ? ex.substr(ex.size() - 200) : ex) + " and served with " + id);
            c.check(ask(t1, q) == t, "table-choice-unstable", show(q) + " changes after being explained");
            c.count("explained");
        }
        std::string ls = text([&](FILE* o) { t1.print(o); });
        std::multiset<std::string> got, want;
        for (size_t p = 0; p < ls.size();) { size_t e = ls.find('\n', p); std::string l = ls.substr(p, e - p); if (l.find(":(raw") == std::string::npos) got.insert(l.substr(0, l.find(':'))); p = e + 1; }
        for (auto& f : fs) want.insert(d1.d[f.dir] + "/" + f.name.substr(0, f.name.size() - 4));
        c.check(got == want, "table-list", "the list of tables is " + vf::jstr(ls) + ", instead of" + all);
    }

    // Directories added one at a time, with requests in between
    {
        tabledir::Tabledirs t3;
        for (int k = 0; k <= nd; ++k)
        {
            std::vector<TFile> now; for (auto& f : fs) if (f.dir < k) now.push_back(f);
            for (unsigned i = r.below(5); i > 0; --i)
            {
                const Req& q = r.pick(reqs);
                int ch; check_answer(c, q, now, d1, ask(t3, q), ch);
                c.count("incremental-requests");
            }
            if (k && r.chance(1, 3)) t3.add_directory(d1.d[r.below(k)]);
            if (!now.empty() && r.chance(1, 2)) { auto& f = r.pick(now); c.check(t3.find(f.name.substr(0, f.name.size() - 4)), "table-by-name", f.name + " is not found by name"); }
            if (k < nd) t3.add_directory(d1.d[k]);
        }
    }

    // The same through the environment and the table loaders, in a new process
    if (nd <= 2 && r.chance(1, 8))
    {
        int p[2];
        if (pipe(p)) throw std::runtime_error("pipe");
        fflush(nullptr);
        pid_t pid = fork();
        if (pid == 0)
        {
            close(p[0]);
            if (nd == 2) { setenv("WREPORT_EXTRA_TABLES", d1.d[0].c_str(), 1); setenv("WREPORT_TABLES", d1.d[1].c_str(), 1); }
            else { unsetenv("WREPORT_EXTRA_TABLES"); setenv("WREPORT_TABLES", d1.d[0].c_str(), 1); }
            std::string out;
            for (auto& q : reqs)
            {
                try {
                    Tables t;
                    if (q.crex) t.load_crex(CrexTableID(q.ed, q.ce, q.sc, q.mt, q.mtv, q.mtvb, q.lt));
                    else t.load_bufr(BufrTableID(q.ce, q.sc, q.mt, q.mtv, q.lt));
                    const Vartable* v = t.btable;
                    // The other ways of getting to the same table
                    const Vartable* g = q.crex ? Vartable::get_crex(CrexTableID(q.ed, q.ce, q.sc, q.mt, q.mtv, q.mtvb, q.lt)) : Vartable::get_bufr(BufrTableID(q.ce, q.sc, q.mt, q.mtv, q.lt));
                    if (g != v) throw std::runtime_error("Vartable::get gives " + g->path().string() + " instead of " + v->path().string());
                    std::string base = v->path().stem().string();
                    g = q.crex ? Vartable::get_crex(base) : Vartable::get_bufr(base);
                    std::string first = d1.d[0] + "/" + base + ".txt";
                    if (g->path() != v->path() && g->path() != first) throw std::runtime_error("Vartable::get of " + base + " gives " + g->path().string());
                    out += v->path().string() + "|" + (v->contains(WR_VAR(0, 1, 1)) ? v->query(WR_VAR(0, 1, 1))->desc : "?") + "|" + t.dtable->path().string() + "\n";
                } catch (error_notfound&) {
                    const Vartable* g = nullptr;
                    try { g = q.crex ? Vartable::get_crex(CrexTableID(q.ed, q.ce, q.sc, q.mt, q.mtv, q.mtvb, q.lt)) : Vartable::get_bufr(BufrTableID(q.ce, q.sc, q.mt, q.mtv, q.lt)); } catch (error_notfound&) {}
                    out += g ? "none, but Vartable::get gives " + g->path().string() + "\n" : "none\n";
                }
                catch (std::exception& e) { out += std::string("error ") + e.what() + "\n"; }
            }
            if (write(p[1], out.data(), out.size()) < 0) _exit(1);
            _exit(0);
        }
        close(p[1]);
        std::string out; char b[4096]; ssize_t k;
        while ((k = read(p[0], b, sizeof b)) > 0) out.append(b, k);
        close(p[0]);
        int st; waitpid(pid, &st, 0);
        c.check(WIFEXITED(st) && WEXITSTATUS(st) == 0, "table-child", fmt("looking up tables in a new process ended with status %d", st));
        size_t pos = 0;
        for (size_t i = 0; i < reqs.size(); ++i)
        {
            size_t e = out.find('\n', pos); std::string l = out.substr(pos, e - pos); pos = e + 1;
            std::string want = "none";
            if (first[i] >= 0)
            {
                const TFile& f = fs[first[i]];
                want = d1.d[f.dir] + "/" + f.name + "|" + f.name + fmt(" in %d", f.dir) + "|" + d1.d[f.dir] + "/D" + f.name.substr(1);
            }
            // A CREX request can be served by a file that cannot be loaded as CREX
            if (reqs[i].crex && l.compare(0, 5, "error") == 0) { c.count("env-not-loadable"); continue; }
            c.check(l == want, "table-get", show(reqs[i]) + " from the environment gives " + l + " instead of " + want);
            c.count("env-requests");
        }
    }
}

// ---------------------------------------------------------------- C13

struct Cookie
{
    std::string data; size_t pos = 0; size_t max = 0;  // max: longest transfer (0: no limit)
    size_t fail_at = ~size_t(0); vf::Rng* r = nullptr; unsigned calls = 0;
    off64_t base = 0; // position of the first byte
};
ssize_t ck_read(void* p, char* buf, size_t n)
{
    Cookie* k = (Cookie*)p; ++k->calls;
    size_t avail = k->data.size() - k->pos;
    if (k->fail_at != ~size_t(0))
    {
        if (k->pos >= k->fail_at) { errno = EIO; return -1; }
        avail = std::min(avail, k->fail_at - k->pos);
    }
    n = std::min(n, avail);
    if (k->max) n = std::min<size_t>(n, 1 + k->r->below(k->max));
    memcpy(buf, k->data.data() + k->pos, n); k->pos += n;
    return n;
}
ssize_t ck_write(void* p, const char* buf, size_t n)
{
    Cookie* k = (Cookie*)p; ++k->calls;
    if (k->fail_at != ~size_t(0))
    {
        if (k->data.size() >= k->fail_at) { errno = ENOSPC; return 0; }
        n = std::min(n, k->fail_at - k->data.size());
    }
    // No other short writes: glibc takes those of a custom stream as errors
    k->data.append(buf, n);
    return n;
}
int ck_seek(void* p, off64_t* off, int whence)
{
    Cookie* k = (Cookie*)p;
    off64_t o = whence == SEEK_SET ? *off - k->base : whence == SEEK_CUR ? (off64_t)k->pos + *off : (off64_t)k->data.size() + *off;
    if (o < 0 || o > (off64_t)k->data.size()) { errno = EINVAL; return -1; }
    k->pos = o; *off = o + k->base; return 0;
}

struct Event { enum { MSG, END, ERR } kind; std::string data; size_t off; };
// What reading the whole stream must give
std::vector<Event> oracle(const std::string& s, bool bufr)
{
    std::vector<Event> res; size_t cur = 0;
    while (true)
    {
        size_t p = s.find(bufr ? "BUFR" : "CREX++", cur);
        if (p == std::string::npos) { res.push_back({Event::END, "", s.size()}); return res; }
        if (bufr)
        {
            if (p + 8 > s.size()) { res.push_back({Event::ERR, "", p}); return res; }
            size_t n = ((unsigned char)s[p + 4] << 16) | ((unsigned char)s[p + 5] << 8) | (unsigned char)s[p + 6];
            if (n < 12 || p + n > s.size()) { res.push_back({Event::ERR, "", p}); return res; }
            res.push_back({Event::MSG, s.substr(p, n), p}); cur = p + n;
        } else {
            // \+\+[\r\n]+7777 after the signature
            size_t q = p + 6; bool found = false;
            while ((q = s.find("++", q)) != std::string::npos)
            {
                size_t e = q + 2;
                while (e < s.size() && (s[e] == '\r' || s[e] == '\n')) ++e;
                if (e > q + 2 && s.compare(e, 4, "7777") == 0) { res.push_back({Event::MSG, s.substr(p, e + 4 - p), p}); cur = e + 4; found = true; break; }
                ++q;
            }
            if (!found) { res.push_back({Event::ERR, "", p}); return res; }
        }
    }
}

std::string noise(vf::Rng& r, bool bufr)
{
    std::string s; unsigned n = r.below(8);
    for (unsigned i = 0; i < n; ++i)
        switch (r.below(10))
        {
            case 0: for (unsigned k = r.below(40); k > 0; --k) s += (char)r.below(256); break;
            case 1: s += std::string(r.below(5), '\0'); break;
            case 2: s += "\r\r\n"; break;
            case 3: s += std::string(bufr ? "BUFR" : "CREX++").substr(0, r.range(1, bufr ? 3 : 5)); break;
            case 4: s += std::string(r.range(1, 4), bufr ? 'B' : 'C'); break;
            case 5: s += "7777"; break;
            case 6: s += "++\r\r\n7777"; break;
            case 7: s += "GRIB"; break;
            case 8: s += "\xff\xff"; break;
            default: s += "ISMN01 LIIB 120000\r\r\n"; break;
        }
    return s;
}
std::string huge_bufr_msg(vf::Rng& r)
{
    static const unsigned sizes[] = {0xffff, 0x10000, 0x7fffff, 0x800000, 0x800001, 0xffffff};
    unsigned n = r.chance(1, 2) ? sizes[r.below(6)] : r.range(1 << 20, 0xffffff);
    std::string m = "BUFR"; m += (char)(n >> 16); m += (char)(n >> 8); m += (char)n; m += '\4';
    std::string t; for (unsigned k = r.range(5, 300); k; --k) t += (char)r.below(256);
    m.reserve(n + t.size());
    while (m.size() < n) { m += t; t[r.below(t.size())] = r.below(256); }
    m.resize(n);
    return m;
}
std::string huge_crex_msg(vf::Rng& r)
{
    std::string m = "CREX++", t; for (unsigned k = r.range(5, 50); k; --k) t += fmt(" %u", (unsigned)r.below(100000));
    unsigned n = r.range(50000, 3000000);
    while (m.size() < n) { m += t; if (r.chance(1, 10)) m += "+\r\r\n"; }
    return m + "++\r\r\n7777";
}
std::string gen_bufr_msg(vf::Rng& r)
{
    if (r.chance(1, 5)) return r.pick(ref::bufr_corpus()).data;
    unsigned n = r.chance(1, 12) ? r.range(60000, 200000) : r.chance(1, 4) ? 12 + r.below(4) : r.range(12, 900);
    std::string m = "BUFR"; m += (char)(n >> 16); m += (char)(n >> 8); m += (char)n; m += (char)r.range(0, 5);
    while (m.size() < n) m += r.chance(1, 30) ? 'B' : (char)r.below(256);
    m.resize(n);
    if (n > 40 && r.chance(1, 3)) m.replace(r.range(8, n - 8), 4, "BUFR");
    if (n > 40 && r.chance(1, 3)) m.replace(r.range(8, n - 8), 4, "7777");
    return m;
}
std::string gen_crex_msg(vf::Rng& r)
{
    std::string end = "++"; for (unsigned k = r.range(1, 4); k > 0; --k) end += r.chance(1, 2) ? '\r' : '\n';
    if (r.chance(1, 2)) end = "++\r\r\n";
    end += "7777";
    std::string m = "CREX++";
    if (r.chance(1, 6)) { m = r.pick(ref::crex_corpus()).data; return m; }
    for (unsigned k = r.below(30); k > 0; --k)
        switch (r.below(11))
        {
            case 0: m += "+"; break;
            case 1: m += "++"; break;
            case 2: m += "+++"; break;
            case 3: m += "++\r\r\n"; break;
            case 4: m += "++\r\r\n77"; break;
            case 5: m += "7777"; break;
            case 6: m += "\r\n"; break;
            case 7: m += "CREX++"; break;
            case 8: m += "++7777"; break;
            case 9: m += "7"; break;
            default: m += fmt(" %05u", (unsigned)r.below(100000)); break;
        }
    return m + end;
}

// Read everything from a stream and compare with the oracle
void read_all(vf::Ctx& c, FILE* f, const std::string& data, bool bufr, bool seekable, bool with_fname, size_t fail_at, size_t start, const std::string& what, off64_t base = 0)
{
    bool failing = fail_at != ~size_t(0);
    std::vector<Event> want = oracle((failing ? data.substr(0, fail_at) : data).substr(start), bufr);
    std::string buf = c.rng.chance(1, 2) ? "left over from a previous message" : "";
    for (size_t i = 0; i < want.size(); ++i)
    {
        bool last = want[i].kind != Event::MSG;
        off_t off = -77;
        bool res = false, thrown = false; std::string msg;
        try {
            const char* fn = with_fname ? "stream" : nullptr;
            off_t* po = c.rng.chance(3, 4) ? &off : nullptr;
            errno = c.rng.chance(1, 2) ? 0 : c.rng.below(120); // whatever was left by others
            res = bufr ? BufrBulletin::read(f, buf, fn, po) : CrexBulletin::read(f, buf, fn, po);
            if (!po) off = -78;
        } catch (wreport::error& e) { thrown = true; msg = e.what(); }
        std::string where = what + fmt(", read %zu (expected at offset %zu of %zu): ", i, want[i].off + start, data.size());
        if (!last)
        {
            c.check(!thrown, "message-refused", where + msg);
            c.check(res, "message-lost", where + "end reported");
            c.check(buf == want[i].data, "message-differs", where + fmt("%zu bytes instead of %zu: ", buf.size(), want[i].data.size()) + vf::hex(buf, 60) + " instead of " + vf::hex(want[i].data, 60));
            if (seekable && off != -78) c.check(off == (off_t)(want[i].off + start + base), "offset-differs", where + fmt("offset is %lld", (long long)off));
            c.count("messages");
        }
        else if (failing) { c.check(thrown, "read-error-ignored", where + fmt("reading failed but read() returned %d", (int)res)); c.count("read-errors"); }
        else if (want[i].kind == Event::ERR) { c.check(thrown, "cut-message-accepted", where + fmt("the message is cut or invalid, but read() returned %d with %zu bytes", (int)res, buf.size())); c.count("cut"); }
        else
        {
            c.check(!thrown, "end-not-reported", where + msg);
            c.check(!res, "message-invented", where + "there are no more messages, but one was returned: " + vf::hex(buf, 60));
            c.count("ends");
            if (c.rng.chance(1, 3)) { res = bufr ? BufrBulletin::read(f, buf) : CrexBulletin::read(f, buf); c.check(!res, "message-invented", where + "after the end a message was returned"); }
        }
    }
}

void stream_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    bool bufr = r.chance(1, 2);
    std::string data; std::vector<std::string> msgs;
    unsigned n = r.below(6);
    for (unsigned i = 0; i < n; ++i)
    {
        data += noise(r, bufr);
        if (r.chance(1, 3000)) { msgs.push_back(bufr ? huge_bufr_msg(r) : huge_crex_msg(r)); c.count("huge"); }
        else msgs.push_back(bufr ? gen_bufr_msg(r) : gen_crex_msg(r));
        data += msgs.back();
        if (r.chance(1, 10)) data += data.substr(data.size() > 20 ? data.size() - 20 : 0);
    }
    data += noise(r, bufr);
    if (bufr && r.chance(1, 12)) // a size too small for a message
    {
        std::string bad = "BUFR"; bad += '\0'; bad += '\0'; bad += (char)r.below(12);
        data += bad; for (unsigned k = r.below(12); k > 0; --k) data += (char)r.below(256);
        if (r.chance(1, 2)) data += noise(r, bufr);
        c.count("size-too-small");
    }
    bool cut = r.chance(1, 3);
    if (cut && !data.empty()) data.resize(r.below(data.size() + 1));
    c.note(fmt("%s stream ", bufr ? "BUFR" : "CREX") + vf::hex(data, 1500));
    c.distinct(vf::fnv(data));
    bool fn = r.chance(1, 2);
    {
        size_t start = r.chance(1, 4) ? r.below(data.size() + 1) : 0;
        FILE* f = tmpfile();
        if (!f) throw std::runtime_error("tmpfile");
        if (fwrite(data.data(), 1, data.size(), f) != data.size()) throw std::runtime_error("tmpfile");
        fseek(f, start, SEEK_SET);
        try { read_all(c, f, data, bufr, true, fn, ~size_t(0), start, "regular file"); } catch (...) { fclose(f); throw; }
        fclose(f);
    }
    {
        // Short reads, odd buffer sizes, seekable or not, failing or not
        Cookie k; k.data = data; k.r = &r; k.max = r.chance(1, 2) ? r.range(1, 7) : r.chance(1, 2) ? r.range(8, 600) : 0;
        if (data.size() > 20000) k.max = 0;
        bool seek = r.chance(1, 2);
        size_t fail = r.chance(1, 3) ? r.below(data.size() + 1) : ~size_t(0);
        k.fail_at = fail;
        cookie_io_functions_t io{ck_read, nullptr, seek ? ck_seek : nullptr, nullptr};
        FILE* f = fopencookie(&k, "r", io);
        char vb[64];
        int bm = r.below(3);
        if (bm == 0) setvbuf(f, nullptr, _IONBF, 0); else if (bm == 1) setvbuf(f, vb, _IOFBF, r.range(1, 64));
        if (bm == 0 && data.size() > 5000) { setvbuf(f, nullptr, _IOFBF, 4096); }
        if (seek && r.chance(1, 3)) { k.base = r.chance(1, 2) ? 5000000000ll + r.below(100) : (1ll << 31) - 1 - (off64_t)r.below(300); fseeko(f, k.base, SEEK_SET); c.count("far"); }
        try { read_all(c, f, data, bufr, seek, fn, fail, 0, fmt("stream with short reads%s%s", seek ? "" : ", not seekable", fail != ~size_t(0) ? ", failing" : "") + (k.base ? fmt(", starting at %lld", (long long)k.base) : ""), k.base); } catch (...) { fclose(f); throw; }
        fclose(f);
        c.count("short-reads", k.calls);
    }
    // Writing
    if (!msgs.empty())
    {
        Cookie k; k.r = &r;
        std::string want; for (auto& m : msgs) want += bufr ? m : m + "\r\r\n";
        bool fails = r.chance(1, 3);
        if (fails) k.fail_at = r.below(want.size());
        cookie_io_functions_t io{nullptr, ck_write, nullptr, nullptr};
        FILE* f = fopencookie(&k, "w", io);
        bool unbuf = r.chance(1, 2);
        if (unbuf) setvbuf(f, nullptr, _IONBF, 0);
        bool thrown = false;
        try {
            for (auto& m : msgs) { if (bufr) BufrBulletin::write(m, f, fn ? "out" : nullptr); else CrexBulletin::write(m, f, fn ? "out" : nullptr); }
        } catch (wreport::error&) { thrown = true; }
        bool flushed = fflush(f) == 0;
        fclose(f);
        if (!fails)
        {
            c.check(!thrown, "write-refused", "writing failed for no reason");
            c.check(k.data == want, "written-differs", fmt("%zu bytes written instead of %zu", k.data.size(), want.size()));
            c.count("written", msgs.size());
            auto ev = oracle(k.data, bufr);
            c.check(ev.size() == msgs.size() + 1 || !bufr, "written-differs", "what was written does not hold the same messages");
        } else {
            if (unbuf) c.check(thrown, "write-error-ignored", "a write failed, and write() did not");
            else c.check(thrown || !flushed, "write-error-ignored", "a write failed, and neither write() nor fflush() did");
            c.count("write-errors");
        }
    }
    if (c.samples.size() < 2 && n > 1) c.sample(fmt("%s stream of %zu bytes with %u messages: ", bufr ? "BUFR" : "CREX", data.size(), n) + vf::hex(data, 200));
}
void stream_setup(vf::Ctx&) { ref::bufr_corpus(); ref::crex_corpus(); }

vf::Reg r1("tabledir", tabledir_case);
vf::Reg r2("stream", stream_case, stream_setup);
}
