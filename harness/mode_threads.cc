// C15: options and notes belong to a thread and to a scope; threads working
// on separate bulletins do not disturb each other.
#include "crexutil.h"
#include "cmp.h"
#include "mutate.h"
#include "varpool.h"
#include <wreport/bulletin/dds-validator.h>
#include <wreport/conv.h>
#include <wreport/error.h>
#include <wreport/tableinfo.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <algorithm>
#include <atomic>
#include <sstream>
#include <thread>
#include <unistd.h>
using namespace wreport;
using vf::fmt;

namespace {

struct Fail { std::string key, detail; };
struct Hook : public options::DomainErrorHook
{
    unsigned n = 0;
    void handle_domain_error_int(Var& v, int32_t) override { ++n; v.unset(); }
    void handle_domain_error_double(Var& v, double) override { ++n; v.unset(); }
};
struct Unwind {};

// ---------------------------------------------------------------- scopes

// What is in force in a thread
struct Model { bool silent = false, clamp = false; options::DomainErrorHook* hook = nullptr; std::ostream* notes = nullptr; };

struct Scopes
{
    vf::Rng r; std::vector<Fail>& fails; std::map<std::string, uint64_t>& counts;
    Varinfo info; unsigned budget = 60; std::string path;
    Model m;
    Hook hooks[2];
    std::stringstream outs[3];
    std::string want[3];

    Scopes(uint64_t seed, std::vector<Fail>& f, std::map<std::string, uint64_t>& c, Varinfo i) : r(seed), fails(f), counts(c), info(i) {}

    void bad(const char* key, const std::string& d) { if (fails.size() < 5) fails.push_back({key, d + " after" + path.substr(path.size() > 600 ? path.size() - 600 : 0)}); throw vf::Stop(); }
    void check(const char* when)
    {
        ++counts["states-checked"];
        if (options::var_silent_domain_errors != m.silent) bad("silent-option", fmt("%s: silent is %d instead of %d", when, options::var_silent_domain_errors, m.silent));
        if (options::var_clamp_domain_errors != m.clamp) bad("clamp-option", fmt("%s: clamp is %d instead of %d", when, options::var_clamp_domain_errors, m.clamp));
        if (options::var_hook_domain_errors != m.hook) bad("hook-option", fmt("%s: the hook is not the one in force", when));
        if (notes::logs() != (m.notes != nullptr)) bad("notes-logs", fmt("%s: notes are%s collected", when, notes::logs() ? "" : " not"));
        if (r.chance(1, 3))
        {
            // Effect of the options
            Var v(info, 1);
            unsigned h0 = hooks[0].n, h1 = hooks[1].n; bool thrown = false;
            try { v.seti(info->imax + 1 + (int)r.below(5)); } catch (error_domain&) { thrown = true; }
            bool hooked = hooks[0].n != h0 || hooks[1].n != h1;
            if (m.silent) { if (thrown || hooked || v.isset()) bad("silent-effect", "an out of domain value did not just unset the variable"); }
            else if (m.clamp) { if (thrown || hooked || !v.isset() || v.enqi() != info->imax) bad("clamp-effect", "an out of domain value was not clamped"); }
            else if (m.hook) { if (thrown || v.isset() || hooks[0].n != h0 + (m.hook == &hooks[0]) || hooks[1].n != h1 + (m.hook == &hooks[1])) bad("hook-effect", "an out of domain value did not go to the hook in force"); }
            else if (!thrown || hooked || v.isset()) bad("throw-effect", "an out of domain value did not throw");
            ++counts["effects-checked"];
        }
        if (r.chance(1, 2))
        {
            // Where notes go
            std::string n = fmt("note %llu\n", (unsigned long long)r.below(1000000));
            if (r.chance(1, 2)) notes::logf("%s", n.c_str()); else notes::log() << n;
            for (unsigned i = 0; i < 3; ++i) if (m.notes == &outs[i]) want[i] += n;
            for (unsigned i = 0; i < 3; ++i) if (outs[i].str() != want[i]) bad("notes-target", "a note did not go to the target in force");
            ++counts["notes-checked"];
        }
    }
    void body(unsigned depth)
    {
        check("inside");
        unsigned n = r.below(4);
        for (unsigned i = 0; i < n && budget; ++i)
        {
            --budget;
            if (r.chance(1, 10)) usleep(r.below(30)); else if (r.chance(1, 4)) std::this_thread::yield();
            if (r.chance(1, 7)) assign();
            else if (r.chance(1, 8) && depth) { path += " throw"; ++counts["unwound"]; if (r.chance(1, 2)) throw error_consistency("unwinding"); throw Unwind(); }
            else scope(depth + 1);
            check("after a scope");
        }
    }
    // Changes without a scope
    void assign()
    {
        path += " set";
        switch (r.below(4))
        {
            case 0: options::var_silent_domain_errors = m.silent = r.chance(1, 2); break;
            case 1: options::var_clamp_domain_errors = m.clamp = r.chance(1, 2); break;
            case 2: m.hook = r.chance(1, 3) ? nullptr : &hooks[r.below(2)]; options::var_hook_domain_errors = m.hook; break;
            case 3: m.notes = &outs[r.below(3)]; notes::set_target(*m.notes); break;
        }
    }
    void scope(unsigned depth)
    {
        Model old = m;
        unsigned kind = depth > 8 ? 99 : r.below(8);
        path += fmt(" {%u", kind);
        auto restored = [&] {
            // A scope only restores what it overrode
            switch (kind)
            {
                case 0: case 4: m.silent = old.silent; break;
                case 1: case 5: m.clamp = old.clamp; break;
                case 2: case 6: m.hook = old.hook; break;
                case 3: case 7: m.notes = old.notes; break;
            }
            path += "}";
        };
        try
        {
            switch (kind)
            {
                case 0: { m.silent = r.chance(1, 2); options::LocalOverride<bool> o(options::var_silent_domain_errors, m.silent); body(depth); break; }
                case 1: { m.clamp = r.chance(1, 2); options::LocalOverride<bool> o(options::var_clamp_domain_errors, m.clamp); body(depth); break; }
                case 2: { m.hook = r.chance(1, 4) ? nullptr : &hooks[r.below(2)]; options::LocalOverride<options::DomainErrorHook*> o(options::var_hook_domain_errors, m.hook); body(depth); break; }
                case 4: { m.silent = r.chance(1, 2); auto o = options::local_override(options::var_silent_domain_errors, m.silent); body(depth); break; }
                case 5: { m.clamp = r.chance(1, 2); auto o = options::local_override(options::var_clamp_domain_errors, m.clamp); body(depth); break; }
                case 6: { m.hook = &hooks[r.below(2)]; auto o = options::local_override(options::var_hook_domain_errors, m.hook); body(depth); break; }
                case 3: case 7: { m.notes = &outs[r.below(3)]; notes::Collect o(*m.notes); body(depth); break; }
                default: body(depth); break;
            }
            restored();
        }
        catch (vf::Stop&) { throw; }
        catch (wreport::error&) { restored(); check("after unwinding"); if (r.chance(1, 2)) throw; }
        catch (Unwind&) { restored(); check("after unwinding"); if (r.chance(1, 2)) throw; }
        ++counts["scopes"];
    }
    void run()
    {
        // whatever the other threads do, a new thread starts with the defaults
        check("at the start of the thread");
        while (budget) { --budget; try { body(0); } catch (wreport::error&) {} catch (Unwind&) {} check("at the top"); }
        // leave nothing behind: the streams are about to go
    }
};

void scopes_case(vf::Ctx& c)
{
    static Varinfo info = Vartable::get_bufr(BufrTableID(0, 0, 0, 24, 0))->query(WR_VAR(0, 1, 1));
    unsigned nt = 1 + c.rng.below(4);
    std::vector<std::vector<Fail>> fails(nt); std::vector<std::map<std::string, uint64_t>> counts(nt);
    std::vector<std::thread> th; std::atomic<unsigned> go{0};
    std::vector<uint64_t> seeds; for (unsigned i = 0; i < nt; ++i) seeds.push_back(c.rng.next());
    c.note(fmt("%u threads nesting scopes", nt));
    for (unsigned i = 0; i < nt; ++i)
        th.emplace_back([&, i] {
            Scopes s(seeds[i], fails[i], counts[i], info);
            go.fetch_add(1, std::memory_order_relaxed);
            for (unsigned k = 0; k < 2000 && go.load(std::memory_order_relaxed) < nt; ++k) std::this_thread::yield();
            try { s.run(); } catch (vf::Stop&) {}
            catch (std::exception& e) { fails[i].push_back({"unexpected-exception", e.what()}); }
        });
    for (auto& t : th) t.join();
    for (auto& m : counts) for (auto& k : m) c.count(k.first, k.second);
    c.distinct(seeds[0]);
    c.count("threads", nt);
    // The main thread never changed anything
    c.check(!options::var_silent_domain_errors && !options::var_clamp_domain_errors && !options::var_hook_domain_errors && !notes::logs(), "leaked-to-main", "options set in other threads are seen by the main thread");
    for (auto& f : fails) if (!f.empty()) c.failstop("scope:" + f[0].key, fmt("%u threads: ", nt) + f[0].detail);
    if (c.case_no == 0) c.sample(fmt("%u threads with random nested overrides of options and notes, unwound normally or by exceptions", nt));
}

// ---------------------------------------------------------------- threads

struct Work { bool crex; std::string msg; };
enum Op { DECODE, HEADER, VERBOSE, ENCODE, PRINT, STRUCTURED, DATADESC, DIFF, VALIDATE, FORMAT, ASSIGN, CONVERT, SILENT, CLAMP, TABLES, READ, TEXT, NOPS };
const char* const opnames[] = {"decode", "header", "verbose", "encode", "print", "print-structured", "print-datadesc", "diff", "validate", "format", "assign", "convert", "decode-silent", "decode-clamp", "tables", "read", "text"};

std::unique_ptr<Bulletin> dec(const Work& w)
{
    if (w.crex) return CrexBulletin::decode(w.msg, "w", 0);
    return BufrBulletin::decode(w.msg, "w", 0);
}
template<typename Fn> std::string captured(Fn fn)
{
    char* p = nullptr; size_t n = 0;
    FILE* f = open_memstream(&p, &n);
    std::string err;
    try { fn(f); } catch (wreport::error& e) { err = fmt("error %d", (int)e.code()); }
    fclose(f);
    std::string s(p, n); free(p);
    return s + err;
}
// Deterministic outcome of an operation, as text
std::string perform(const Work& w, Op op, unsigned arg)
{
    std::stringstream notes_out;
    notes::Collect coll(notes_out);
    try
    {
        std::string s;
        switch (op)
        {
            case DECODE: s = cmp::dump(*dec(w)); break;
            case HEADER: s = w.crex ? cmp::dump(*CrexBulletin::decode_header(w.msg)) : cmp::dump(*BufrBulletin::decode_header(w.msg)); break;
            case VERBOSE: s = captured([&](FILE* f) { if (w.crex) CrexBulletin::decode_verbose(w.msg, f); else BufrBulletin::decode_verbose(w.msg, f); }); break;
            case ENCODE: s = dec(w)->encode(); break;
            case PRINT: { auto b = dec(w); s = captured([&](FILE* f) { b->print(f); }); break; }
            case STRUCTURED: { auto b = dec(w); s = captured([&](FILE* f) { b->print_structured(f); }); break; }
            case DATADESC: { auto b = dec(w); s = captured([&](FILE* f) { b->print_datadesc(f); }); break; }
            case DIFF:
            {
                auto a = dec(w), b = dec(w);
                if (!b->subsets.empty() && !b->subsets[0].empty()) { auto& v = b->subsets[0][arg % b->subsets[0].size()]; v.unset(); v.clear_attrs(); }
                b->data_category ^= arg & 1;
                s = fmt("%u differences", a->diff(*b)); break;
            }
            case VALIDATE: { auto b = dec(w); for (unsigned i = 0; i < b->subsets.size(); ++i) { bulletin::DDSValidator v(*b, i); v.run(); } s = "valid"; break; }
            case FORMAT:
            {
                auto b = dec(w);
                for (auto& sub : b->subsets) for (auto& v : sub)
                {
                    s += v.format("unset"); s += "|";
                    if (v.isset()) { s += v.enqc(); s += "|"; s += v.enqs(); if (v.info()->type == Vartype::Decimal || v.info()->type == Vartype::Integer) s += fmt("|%.17g|%d", v.enqd(), v.enqi()); }
                    std::stringstream ss; v.print(ss); s += ss.str();
                    s += varcode_format(v.code());
                    if (s.size() > 40000) break;
                }
                break;
            }
            case ASSIGN:
            {
                auto b = dec(w);
                unsigned n = 0;
                for (auto& sub : b->subsets) for (auto& v : sub)
                {
                    if (++n > 200) break;
                    Var x(v.info());
                    try { if (v.isset()) { x.setf(v.format("").c_str()); s += x.enqs(); } x.seti((int)arg * 100); s += x.isset() ? x.enqs() : "-"; x.setval(v); s += x == v ? "=" : "!"; }
                    catch (wreport::error& e) { s += fmt("error %d", (int)e.code()); }
                }
                break;
            }
            case CONVERT:
                for (auto& p : std::vector<std::pair<const char*, const char*>>{{"K", "C"}, {"C", "C/10"}, {"PA", "MB"}, {"MB", "PA"}, {"M/S", "KNOT"}, {"YEAR", "MONTH"}, {"NUMERIC", "NUMERIC"}, {"CODE TABLE", "CODE TABLE 8021"}, {"DEGREE", "RAD"}})
                    try { s += fmt("%.17g ", convert_units(p.first, p.second, arg)); } catch (wreport::error& e) { s += fmt("error %d ", (int)e.code()); }
                break;
            case SILENT: { options::LocalOverride<bool> o(options::var_silent_domain_errors, true); s = cmp::dump(*dec(w)); break; }
            case CLAMP: { options::LocalOverride<bool> o(options::var_clamp_domain_errors, true); s = cmp::dump(*dec(w)); break; }
            case TABLES:
            {
                auto b = dec(w);
                const Vartable* t = w.crex ? Vartable::get_crex(CrexTableID(2, 0, 0, 0, 3, 0, 0)) : Vartable::get_bufr(BufrTableID(0, 0, 0, 12 + arg % 8, 0));
                s = t->path().string();
                for (auto c : b->datadesc) { if (WR_VAR_F(c) == 0 && b->tables.btable->contains(c)) s += b->tables.btable->query(c)->desc; if (WR_VAR_F(c) == 3) s += fmt("%zu", (size_t)b->tables.dtable->query(c).size()); }
                for (auto& sub : b->subsets) for (auto& v : sub) if (WR_VAR_F(v.code()) == 0 && b->tables.btable->contains(v.code()) && v.info()->type != Vartype::Binary)
                { Varinfo i = b->tables.btable->query_altered(v.code(), v.info()->scale, v.info()->bit_len, v.info()->bit_ref); s += i == v.info() ? "=" : "!"; }
                break;
            }
            case READ:
            {
                FILE* f = fmemopen((void*)w.msg.data(), w.msg.size(), "r");
                std::string m; bool ok = false;
                try { ok = w.crex ? CrexBulletin::read(f, m) : BufrBulletin::read(f, m); } catch (wreport::error&) {}
                fclose(f);
                s = fmt("%d ", ok) + m; break;
            }
            case TEXT:
                s = fmt("%d ", varcode_parse("B12101")) + varcode_format(WR_VAR(arg % 4, arg % 64, arg % 256)) + vartype_format(vartype_parse("decimal"));
                try { varcode_parse("X"); } catch (wreport::error& e) { s += e.what(); }
                break;
            default: break;
        }
        return s + "\nnotes: " + notes_out.str();
    }
    catch (wreport::error& e) { return fmt("error %d\nnotes: ", (int)e.code()) + notes_out.str(); }
}

std::vector<Work> pool;
std::map<std::tuple<unsigned, unsigned, unsigned>, std::string> expected;
struct Done { unsigned th, op; uint64_t t0, t1; };

void threads_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    // New work now and then: it is done once, alone, before the threads start
    if (pool.size() < 10 || r.chance(1, 3))
    {
        Work w; w.crex = r.chance(1, 4);
        if (w.crex) w.msg = r.chance(1, 2) ? r.pick(ref::crex_corpus()).data : ref::gen_crex(r).msg;
        else do {
            if (r.chance(1, 3)) w.msg = r.pick(ref::bufr_corpus()).data; else w.msg = ref::gen_bufr(r).msg;
        } while (w.msg.size() > 1500 || ref::layout(w.msg).subsets > 6);
        if (w.msg.size() < 3000)
        {
            if (pool.size() < 60) pool.push_back(w);
            else { unsigned p = r.below(pool.size()); pool[p] = w; for (auto i = expected.begin(); i != expected.end(); ) if (std::get<0>(i->first) == p) i = expected.erase(i); else ++i; }
        }
    }
    if (pool.empty()) return;
    unsigned nt = 2 + r.below(5), per = 6 + r.below(20);
    struct Task { unsigned w; Op op; unsigned arg; const std::string* want; unsigned delay; };
    std::vector<std::vector<Task>> plan(nt);
    bool same = r.chance(1, 3); // all on copies of the same few messages
    std::vector<unsigned> few{(unsigned)r.below(pool.size()), (unsigned)r.below(pool.size())};
    int only = r.chance(1, 3) ? (int)r.below(NOPS) : -1; // the same operation everywhere
    for (auto& p : plan)
        for (unsigned i = 0; i < per; ++i)
        {
            Task t; t.w = same ? r.pick(few) : r.below(pool.size()); t.op = only >= 0 && r.chance(3, 4) ? (Op)only : (Op)r.below(NOPS); t.arg = r.below(8);
            t.delay = r.chance(1, 6) ? r.below(40) : 0;
            auto key = std::make_tuple(t.w, (unsigned)t.op, t.arg);
            auto it = expected.find(key);
            if (it == expected.end())
            {
                c.note(fmt("alone: %s of ", opnames[t.op]) + vf::hex(pool[t.w].msg, 1500));
                perform(pool[t.w], t.op, t.arg); // loads tables, and says so in the notes
                it = expected.emplace(key, perform(pool[t.w], t.op, t.arg)).first;
                c.check(perform(pool[t.w], t.op, t.arg) == it->second, "not-repeatable", fmt("%s gives different results when repeated: ", opnames[t.op]) + vf::hex(pool[t.w].msg, 1500));
            }
            t.want = &it->second; p.push_back(t);
        }
    std::vector<std::vector<Fail>> fails(nt); std::vector<std::vector<Done>> done(nt);
    std::atomic<uint64_t> ticket{0}; std::atomic<unsigned> ready{0};
    std::vector<std::thread> th;
    c.note(fmt("%u threads, %u operations each", nt, per));
    for (unsigned i = 0; i < nt; ++i)
        th.emplace_back([&, i] {
            std::vector<Work> mine; for (auto& t : plan[i]) mine.push_back(pool[t.w]);
            // relaxed: the monitor must not order what it watches
            ready.fetch_add(1, std::memory_order_relaxed);
            while (ready.load(std::memory_order_relaxed) < nt) std::this_thread::yield();
            for (unsigned k = 0; k < plan[i].size(); ++k)
            {
                const Task& t = plan[i][k];
                if (t.delay) usleep(t.delay);
                Done d{i, t.op, ticket.fetch_add(1, std::memory_order_relaxed), 0};
                std::string got;
                try { got = perform(mine[k], t.op, t.arg); } catch (std::exception& e) { got = std::string("exception ") + e.what(); }
                d.t1 = ticket.fetch_add(1, std::memory_order_relaxed);
                done[i].push_back(d);
                if (got != *t.want)
                {
                    size_t p = 0; while (p < got.size() && p < t.want->size() && got[p] == (*t.want)[p]) ++p;
                    size_t a = p > 40 ? p - 40 : 0;
                    fails[i].push_back({std::string("concurrent-") + opnames[t.op], fmt("%s among %u threads differs at %zu: alone ", opnames[t.op], nt, p) + vf::jstr(t.want->substr(a, 160)) + " together " + vf::jstr(got.substr(a, 160)) + " of " + vf::hex(mine[k].msg, 800)});
                    return;
                }
            }
        });
    for (auto& t : th) t.join();
    std::vector<Done> all;
    for (auto& d : done) all.insert(all.end(), d.begin(), d.end());
    for (auto& d : all) { c.count(std::string("op:") + opnames[d.op]); if (d.t1 > d.t0 + 1) c.count("overlapping"); }
    c.count("operations", all.size());
    // The interleaving: who did what, by starting order
    std::sort(all.begin(), all.end(), [](const Done& a, const Done& b) { return a.t0 < b.t0; });
    uint64_t h = 1; for (auto& d : all) { unsigned x[2] = {d.th, d.op}; h = vf::fnv(x, sizeof x, h); }
    c.distinct(h);
    c.check(!options::var_silent_domain_errors && !options::var_clamp_domain_errors && !options::var_hook_domain_errors && !notes::logs(), "leaked-to-main", "options set in other threads are seen by the main thread");
    for (auto& f : fails) for (auto& x : f) c.fail(x.key, x.detail);
    if (c.samples.size() < 2)
    {
        std::string s; for (unsigned i = 0; i < all.size() && i < 20; ++i) s += fmt(" %u:%s", all[i].th, opnames[all[i].op]);
        c.sample(fmt("%u threads started:", nt) + s);
    }
}
void threads_setup(vf::Ctx& c) { cmp::setup_crex(c); ref::bufr_corpus(); ref::crex_corpus(); }

vf::Reg r1("scopes", scopes_case), r2("threads", threads_case, threads_setup);

}
