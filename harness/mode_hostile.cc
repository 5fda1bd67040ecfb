// Hostile input: mutated and synthetic messages through the whole decoding,
// printing, comparison, validation and encoding interface.
#include "mutate.h"
#include "crexutil.h"
#include <wreport/bulletin.h>
#include <wreport/bulletin/dds-validator.h>
#include <wreport/options.h>
#include <wreport/notes.h>
#include <wreport/error.h>
#include <memory>
#include <sstream>
#include <typeinfo>
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#define HAVE_ALLOC 1
#endif

using namespace wreport;

namespace mut {

// A string whose storage ends exactly where the data ends, so that the
// sanitizer sees any over-read
static std::string tight(const std::string& m)
{
    std::string s(m);
    if (s.size() < 16) return s;
    std::string t; t.reserve(s.size()); t = s; t.shrink_to_fit();
    return t;
}

template<typename Fn> static bool guarded(vf::Ctx& ctx, const char* what, Fn fn)
{
    try { fn(); ctx.count(std::string(what) + ":ok"); return true; }
    catch (wreport::error&) { ctx.count(std::string(what) + ":error"); return false; }
    catch (vf::Stop&) { throw; }
    catch (std::exception& e)
    {
        ctx.fail(vf::fmt("foreign-exception:%s:%s", what, typeid(e).name()), std::string(what) + " threw " + e.what());
        return false;
    }
}

struct QuietHook : public options::DomainErrorHook
{
    unsigned n = 0;
    void handle_domain_error_int(Var& v, int32_t) override { ++n; v.unset(); }
    void handle_domain_error_double(Var& v, double) override { ++n; v.unset(); }
};

static void consume(vf::Ctx& ctx, const Bulletin& b, const char* what)
{
    FILE* null = vf::devnull();
    ctx.phase(10);
    guarded(ctx, "print", [&] { b.print(null); });
    guarded(ctx, "print_structured", [&] { b.print_structured(null); });
    guarded(ctx, "print_datadesc", [&] { b.print_datadesc(null, 2); });
    ctx.phase(11);
    guarded(ctx, "diff", [&] {
        unsigned d = b.diff(b);
        if (d) ctx.fail("self-diff", vf::fmt("%u differences of a decoded %s message with itself", d, what));
    });
    ctx.phase(12);
    for (unsigned i = 0; i < b.subsets.size() && i < 3; ++i)
        guarded(ctx, "validate", [&] { bulletin::DDSValidator v(b, i); v.run(); });
    ctx.phase(13);
    guarded(ctx, "accessors", [&] {
        for (const auto& s : b.subsets)
        {
            unsigned n = 0;
            for (const auto& v : s)
            {
                if (++n > 400) break;
                std::string f = v.format(""); std::stringstream ss; v.print(ss);
                if (v.isset()) { (void)v.enqs(); (void)strlen(v.enqc()); }
                Var copy(v); if (!(copy == v)) ctx.fail("copy-differs", f);
                Var moved(std::move(copy));
                for (const Var* a = v.next_attr(); a; a = a->next_attr()) (void)a->format();
            }
        }
    });
}

// Everything that was decoded comes from somewhere (when run under valgrind)
template<typename T> void def(vf::Ctx& ctx, const T& t, const char* what) { vf::defined(ctx, &t, sizeof t, what); }
void defined(vf::Ctx& ctx, const Bulletin& b)
{
    if (!vf::in_memcheck()) return;
    def(ctx, b.master_table_number, "master_table_number"); def(ctx, b.data_category, "data_category"); def(ctx, b.data_subcategory, "data_subcategory");
    def(ctx, b.data_subcategory_local, "data_subcategory_local"); def(ctx, b.originating_centre, "originating_centre"); def(ctx, b.originating_subcentre, "originating_subcentre");
    def(ctx, b.update_sequence_number, "update_sequence_number"); def(ctx, b.rep_year, "rep_year"); def(ctx, b.rep_month, "rep_month"); def(ctx, b.rep_day, "rep_day");
    def(ctx, b.rep_hour, "rep_hour"); def(ctx, b.rep_minute, "rep_minute"); def(ctx, b.rep_second, "rep_second");
    vf::defined(ctx, b.datadesc.data(), b.datadesc.size() * sizeof(Varcode), "descriptors");
    if (auto bb = dynamic_cast<const BufrBulletin*>(&b))
    {
        def(ctx, bb->edition_number, "edition_number"); def(ctx, bb->master_table_version_number, "master_table_version_number");
        def(ctx, bb->master_table_version_number_local, "master_table_version_number_local"); def(ctx, bb->compression, "compression");
        vf::defined(ctx, bb->optional_section.data(), bb->optional_section.size(), "optional section");
    }
    if (auto cb = dynamic_cast<const CrexBulletin*>(&b))
    {
        def(ctx, cb->edition_number, "edition_number"); def(ctx, cb->master_table_version_number, "master_table_version_number");
        def(ctx, cb->master_table_version_number_local, "master_table_version_number_local"); def(ctx, cb->master_table_version_number_bufr, "master_table_version_number_bufr");
        def(ctx, cb->has_check_digit, "has_check_digit");
    }
    for (auto& s : b.subsets)
        for (auto& v : s)
            for (const Var* a = &v; a; a = a->next_attr())
            {
                bool set = a->isset(); def(ctx, set, "whether a variable is set"); if (!set) continue;
                switch (a->info()->type)
                {
                    case Vartype::Integer: case Vartype::Decimal: { int i = a->enqi(); def(ctx, i, "value of a number"); break; }
                    case Vartype::String: vf::defined(ctx, a->enqc(), strlen(a->enqc()) + 1, "value of a string"); break;
                    case Vartype::Binary: vf::defined(ctx, a->enqc(), a->info()->len, "opaque value"); break;
                }
            }
    ctx.count("bulletins-defined");
}

void consume_bufr(vf::Ctx& ctx, const std::string& msg, bool heavy)
{
    std::string m = tight(msg);
    ctx.phase(1);
    std::unique_ptr<BufrBulletin> b;
    unsigned plan = ctx.rng.below(8);
    std::unique_ptr<options::LocalOverride<bool>> ov;
    std::unique_ptr<options::LocalOverride<options::DomainErrorHook*>> ovh;
    QuietHook hook;
    if (plan == 1) ov.reset(new options::LocalOverride<bool>(options::var_silent_domain_errors, true));
    if (plan == 2) ov.reset(new options::LocalOverride<bool>(options::var_clamp_domain_errors, true));
    if (plan == 3) ovh.reset(new options::LocalOverride<options::DomainErrorHook*>(options::var_hook_domain_errors, &hook));
    guarded(ctx, "decode_header", [&] { auto h = BufrBulletin::decode_header(m, "hostile", 0); defined(ctx, *h); if (heavy) h->print_details(vf::devnull()); });
    ctx.phase(2);
    bool ok = guarded(ctx, "decode", [&] {
        if (plan == 4) { auto opts = BufrCodecOptions::create(); opts->decode_adds_undef_attrs = true; b = BufrBulletin::decode(m, *opts, "hostile", 0); }
        else if (plan == 5) b = BufrBulletin::decode_verbose(m, vf::devnull(), "hostile", 0);
        else b = BufrBulletin::decode(m, "hostile", 0);
    });
    if (ok)
    {
        defined(ctx, *b);
        ctx.count("subsets", b->subsets.size());
        uint64_t nv = 0; for (auto& s : b->subsets) nv += s.size();
        ctx.count("vars", nv);
        if (!heavy) return;
        consume(ctx, *b, "BUFR");
        ctx.phase(20);
        std::string enc;
        if (guarded(ctx, "encode", [&] { enc = b->encode(); }))
        {
            vf::defined(ctx, enc.data(), enc.size(), "encoded message");
            ctx.phase(21);
            guarded(ctx, "redecode", [&] { BufrBulletin::decode(tight(enc), "reencoded", 0); });
        }
    }
}

void consume_crex(vf::Ctx& ctx, const std::string& msg, bool heavy)
{
    std::string m = tight(msg);
    ctx.phase(1);
    std::unique_ptr<CrexBulletin> b;
    unsigned plan = ctx.rng.below(4);
    std::unique_ptr<options::LocalOverride<bool>> ov;
    if (plan == 1) ov.reset(new options::LocalOverride<bool>(options::var_silent_domain_errors, true));
    if (plan == 2) ov.reset(new options::LocalOverride<bool>(options::var_clamp_domain_errors, true));
    guarded(ctx, "decode_header", [&] { auto h = CrexBulletin::decode_header(m, "hostile", 0); defined(ctx, *h); if (heavy) h->print_details(vf::devnull()); });
    ctx.phase(2);
    bool ok = guarded(ctx, "decode", [&] {
        if (plan == 3) b = CrexBulletin::decode_verbose(m, vf::devnull(), "hostile", 0);
        else b = CrexBulletin::decode(m, "hostile", 0);
    });
    if (ok)
    {
        defined(ctx, *b);
        ctx.count("subsets", b->subsets.size());
        uint64_t nv = 0; for (auto& s : b->subsets) nv += s.size();
        ctx.count("vars", nv);
        if (!heavy) return;
        consume(ctx, *b, "CREX");
        ctx.phase(20);
        std::string enc;
        if (guarded(ctx, "encode", [&] { enc = b->encode(); }))
        {
            vf::defined(ctx, enc.data(), enc.size(), "encoded message");
            ctx.phase(21);
            guarded(ctx, "redecode", [&] { CrexBulletin::decode(tight(enc), "reencoded", 0); });
        }
    }
}

}

namespace {

// The work a message asks for, whatever the implementation
bool bounded(const std::string& m, bool& skip)
{
    ref::Layout l = ref::layout(m);
    skip = false;
    if (l.dd.empty()) return true;
    double w = ref::silent_work(l.dd, ref::wmo_bufr(33).d);
    // local tables can define other sequences: only their depth matters here
    double tot = w * (1 + l.subsets) + (l.compressed ? (double)(m.size() * 8) / 7 * l.subsets : m.size() * 8);
    skip = tot > 4e7;
    return tot < 2e6;
}

template<typename Fn> void leak_probe(vf::Ctx& ctx, const char* what, Fn fn)
{
#ifdef HAVE_ALLOC
    auto rs = ctx.rng;
    for (unsigned i = 0; i < 2; ++i) { ctx.rng = rs; fn(); }
    size_t before = __sanitizer_get_current_allocated_bytes();
    for (unsigned i = 0; i < 3; ++i) { ctx.rng = rs; fn(); }
    size_t after = __sanitizer_get_current_allocated_bytes();
    ctx.count("leak-probes");
    if (after >= before + 3 * 8)
        ctx.fail(std::string("leak:") + what, vf::fmt("3 repetitions of the same %s retained %zu more bytes", what, after - before));
#else
    fn();
#endif
}

std::string make_bufr(vf::Rng& r)
{
    if (vf::in_memcheck() && r.chance(1, 2)) return ref::gen_bufr(r).msg; // slow, and looking at what is decoded
    if (r.chance(1, 3)) return mut::bufr_synth(r);
    if (r.chance(1, 3))
    {
        ref::GenMsg g = ref::gen_bufr(r);
        if (r.chance(1, 12)) return g.msg;
        if (r.chance(1, 5)) // cut data
            return ref::assemble(g.h, g.subsets, g.compressed, g.dd, g.data.substr(0, r.below(g.data.size() + 1)), false);
        return mut::bufr(r, g.msg);
    }
    auto& c = ref::bufr_corpus();
    // small messages are more productive
    const ref::Msg* m = &r.pick(c);
    for (unsigned i = 0; i < 4 && m->data.size() > 3000; ++i) m = &r.pick(c);
    return mut::bufr(r, m->data);
}

void hostile_bufr(vf::Ctx& ctx)
{
    // notes are formatted and then discarded
    static struct NullBuf : public std::streambuf { int overflow(int c) override { return c; } } nullbuf;
    static std::ostream notes_out(&nullbuf);
    notes::Collect collect(notes_out);
    std::string m = make_bufr(ctx.rng);
    ctx.note("BUFR input " + vf::hex(m, 1900));
    bool skip; bool b = bounded(m, skip);
    if (skip) { ctx.count("skipped-amplification"); return; }
    ctx.set_bounded(b);
    ctx.distinct(vf::fnv(m));
    if (ctx.case_no < 3) ctx.sample("mutated BUFR " + vf::hex(m, 300));
    if (ctx.rng.chance(1, 12) && m.size() < 4000) leak_probe(ctx, "hostile BUFR decode", [&] { mut::consume_bufr(ctx, m, false); });
    else mut::consume_bufr(ctx, m, true);
}

void hostile_crex(vf::Ctx& ctx)
{
    auto& c = ref::crex_corpus();
    std::string m;
    if (ctx.rng.chance(1, 2))
    {
        ref::CrexMsg g = ref::gen_crex(ctx.rng);
        m = ctx.rng.chance(1, 2) ? g.msg : g.canonical;
        switch (vf::in_memcheck() && ctx.rng.chance(1, 2) ? 0 : ctx.rng.below(8))
        {
            case 0: break;
            case 1: case 2: m.resize(ctx.rng.below(m.size() + 1)); break;
            case 3: { size_t p = m.find("++", 6); if (p != std::string::npos) m.resize(p + ctx.rng.below(m.size() - p + 1)); break; } // cut in the data
            case 4: { size_t p = m.find("++", 6); if (p != std::string::npos) for (unsigned i = 0, n = 1 + ctx.rng.below(3); i < n; ++i) m[p + ctx.rng.below(m.size() - p)] = " +-/09E\r\n7"[ctx.rng.below(10)]; break; }
            default: m = mut::crex(ctx.rng, m); break;
        }
    } else m = mut::crex(ctx.rng, ctx.rng.pick(c).data);
    ctx.note("CREX input " + vf::hex(m, 1900));
    ctx.distinct(vf::fnv(m));
    // Replications can be nested: bound by digits in R descriptors
    unsigned big = 0;
    for (size_t i = 0; i + 6 <= m.size() && i < 400; ++i) if (m[i] == 'R' && isdigit((unsigned char)m[i + 1])) ++big;
    ctx.set_bounded(big < 3);
    if (ctx.case_no < 3) ctx.sample("mutated CREX " + vf::jstr(m.substr(0, 300)));
    if (ctx.rng.chance(1, 12) && m.size() < 4000) leak_probe(ctx, "hostile CREX decode", [&] { mut::consume_crex(ctx, m, false); });
    else mut::consume_crex(ctx, m, true);
}

vf::Reg r1("hostile_bufr", hostile_bufr), r2("hostile_crex", hostile_crex, cmp::setup_crex);

}
