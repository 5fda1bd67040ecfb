// BUFR decoding and encoding against the reference model (C03, C04)
#include "cmp.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <algorithm>

using namespace wreport;

namespace {

struct NullBuf : public std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullbuf; std::ostream notes_out(&nullbuf);

std::string describe(const ref::GenMsg& g)
{
    return vf::fmt("edition %u, tables %u, %u subsets%s, template%s, message ", g.h.edition, g.h.mtv, g.subsets, g.compressed ? " (compressed)" : "", cmp::dds(g.dd).c_str()) + vf::hex(g.msg, 900);
}

std::string stats_sig(const ref::GenMsg& g) { std::string s; for (auto& i : g.stats) s += i.first + ","; return s; }

void observe(vf::Ctx& ctx, const ref::GenMsg& g)
{
    ctx.distinct(g.shape);
    for (auto& s : g.stats) ctx.count("seen:" + s.first, s.second);
    unsigned long nv = 0, na = 0, nm = 0;
    for (auto& s : g.expected) { nv += s.size(); for (auto& v : s) { na += v.attrs.size(); if (!v.isset) ++nm; } }
    ctx.count("vars-compared", nv); ctx.count("attrs-compared", na); ctx.count("missing-compared", nm);
    ctx.count(g.compressed ? "compressed" : "uncompressed");
    ctx.count(vf::fmt("edition%u", g.h.edition));
    if (ctx.case_no < 4) ctx.sample(describe(g));
}

std::unique_ptr<BufrBulletin> decode(const std::string& m, bool undef)
{
    auto opts = BufrCodecOptions::create();
    opts->decode_adds_undef_attrs = undef;
    if (!undef) return BufrBulletin::decode(cmp::tight(m), "gen", 0);
    return BufrBulletin::decode(cmp::tight(m), *opts, "gen", 0);
}

void compare(vf::Ctx& ctx, const Bulletin& b, const std::vector<ref::RSubset>& exp, const std::string& what)
{
    ctx.check(b.subsets.size() == exp.size(), "subset-count", vf::fmt("%zu subsets instead of %zu: ", b.subsets.size(), exp.size()) + what);
    for (unsigned i = 0; i < exp.size(); ++i)
    {
        std::string e = cmp::subset(b.subsets[i], exp[i]);
        ctx.check(e.empty(), "decoded-value", vf::fmt("subset %u: ", i) + e + "; " + what);
    }
}

// Interpret the data of an existing message; returns false if the reference
// has nothing to say, sets `bad` if it must be refused
bool interpret(const std::string& m, const ref::Layout& l, const ref::TableFile& tb, const ref::DFile& td, bool undef, std::vector<ref::RSubset>& out, bool& bad)
{
    bad = false;
    out.clear(); out.resize(l.subsets);
    ref::BitSrc src(m, l.sec4 + 4, l.end);
    src.compressed = l.compressed;
    try
    {
        if (l.compressed)
        {
            std::vector<ref::BitW> enc(l.subsets);
            src.N = l.subsets;
            ref::Walker w(tb, td, src);
            w.undef_attrs = undef;
            for (unsigned i = 0; i < l.subsets; ++i) { w.out.push_back(&out[i]); w.enc.push_back(&enc[i]); }
            w.run(l.dd);
        }
        else for (unsigned i = 0; i < l.subsets; ++i)
        {
            ref::BitW enc;
            ref::Walker w(tb, td, src);
            w.undef_attrs = undef;
            w.out.push_back(&out[i]); w.enc.push_back(&enc);
            w.run(l.dd);
        }
    }
    catch (ref::Unsup&) { return false; }
    catch (ref::BadData&) { bad = true; }
    return true;
}

void corpus_case(vf::Ctx& ctx, const std::string& name, std::string m, bool mutated)
{
    bool undef = ctx.rng.chance(1, 3);
    ref::Layout l = ref::layout(m);
    if (!l.ok || !l.subsets || l.subsets > 3000) { ctx.count("corpus-skipped"); return; }
    std::unique_ptr<BufrBulletin> h;
    try { h = BufrBulletin::decode_header(m, "corpus", 0); h->load_tables(); } catch (wreport::error&) { ctx.count("corpus-no-tables"); return; }
    const ref::TableFile& tb = ref::load_bufr_b(h->tables.btable->path());
    const ref::DFile& td = ref::load_d(h->tables.dtable->path());
    if (!tb.ok || !td.ok) { ctx.count("corpus-skipped"); return; }
    std::vector<ref::RSubset> exp; bool bad;
    if (!interpret(m, l, tb, td, undef, exp, bad)) { ctx.count("corpus-out-of-scope"); return; }
    std::string what = name + " " + vf::hex(m, 1200);
    ctx.note(what);
    std::unique_ptr<BufrBulletin> b;
    try { b = decode(m, undef); }
    catch (wreport::error& e)
    {
        if (bad) { ctx.count("refused"); ctx.distinct(vf::fnv(m)); return; }
        ctx.failstop("refused-valid", std::string("decoding failed: ") + e.what() + ": " + what);
    }
    if (bad) ctx.failstop("accepted-incomplete", "decoding succeeded, but the data are not what the template asks for: " + what);
    compare(ctx, *b, exp, what);
    ctx.count(mutated ? "corpus-mutated" : "corpus-original");
    ctx.distinct(vf::fnv(m));
}

// Numbers outside the domain of their variable: refused, or as the options in
// force say, but never another number
void domain_case(vf::Ctx& ctx)
{
    vf::Rng& r = ctx.rng;
    ref::BufrHeader h; h.mtv = r.range(14, 30); h.edition = r.range(2, 4);
    ref::TableSet t = ref::wmo_bufr(h.mtv);
    std::vector<ref::Code> dd; ref::BitW w;
    bool af = r.chance(1, 2);
    ref::BInfo x, a; unsigned sig = 0, abits = 0; uint64_t araw = 0, raw = 0;
    // An element, with any bits
    if (af) x = t.b->b.at(ref::mk(0, 12, 101));
    else
    {
        std::vector<const ref::BInfo*> cand;
        for (auto& e : t.b->b)
            if ((e.second.kind == ref::INT || e.second.kind == ref::DEC) && e.second.bit_len && e.second.bit_len <= 31 && ref::X(e.first) != 31 &&
                (e.second.imax() < e.second.bit_ref + (int64_t(1) << e.second.bit_len) - 2 || e.second.imin() > e.second.bit_ref)) cand.push_back(&e.second);
        if (cand.empty()) { ctx.count("domain-none"); return; }
        x = *r.pick(cand);
    }
    raw = r.below((uint64_t(1) << x.bit_len) - 1);
    if (r.chance(1, 3)) { int64_t y = (r.chance(1, 2) ? x.imax() + (int64_t)r.below(3) : x.imin() - (int64_t)r.below(3)) - x.bit_ref; if (y >= 0 && y < (int64_t(1) << x.bit_len) - 1) raw = y; }
    int64_t val = (int64_t)raw + x.bit_ref;
    if (af)
    {
        sig = r.pick(std::vector<unsigned>{1, 2, 6, 7, 8, 21});
        ref::Code ac = sig == 1 || sig == 8 ? ref::mk(0, 33, 2) : sig == 2 ? ref::mk(0, 33, 3) : sig == 6 ? ref::mk(0, 33, 50) : sig == 7 ? ref::mk(0, 33, 40) : ref::mk(0, 33, 41);
        if (!t.b->b.count(ac)) { ctx.count("domain-none"); return; }
        a = t.b->b.at(ac);
        abits = r.range(1, r.chance(1, 2) ? 31 : 9); araw = r.chance(1, 3) ? (uint64_t(1) << abits) - 1 : r.below(uint64_t(1) << abits);
        if (r.chance(1, 3)) { int64_t y = a.imax() + r.range(-1, 2); if (y >= 0 && y < (int64_t(1) << abits)) araw = y; }
        dd = {ref::mk(2, 4, abits), ref::mk(0, 31, 21), x.code, ref::mk(2, 4, 0)};
        w.put(sig, 6); w.put(araw, abits);
    } else dd = {x.code};
    w.put(raw, x.bit_len);
    std::string m = ref::assemble(h, 1, false, dd, w.out, false);
    unsigned opt = r.below(3);
    std::string what = vf::fmt("tables %u, template%s, %lld in %s", h.mtv, cmp::dds(dd).c_str(), (long long)val, x.str().c_str());
    if (af) what += vf::fmt(", %llu in %u bits for significance %u", (unsigned long long)araw, abits, sig);
    what += vf::fmt(", options %u ", opt) + vf::hex(m, 200);
    ctx.note(what); ctx.distinct(vf::fnv(what));
    std::unique_ptr<BufrBulletin> b;
    try
    {
        if (opt == 1) { auto o = options::local_override(options::var_silent_domain_errors, true); b = BufrBulletin::decode(cmp::tight(m), "gen", 0); }
        else if (opt == 2) { auto o = options::local_override(options::var_clamp_domain_errors, true); b = BufrBulletin::decode(cmp::tight(m), "gen", 0); }
        else b = BufrBulletin::decode(cmp::tight(m), "gen", 0);
    }
    catch (wreport::error& e) { b.reset(); }
    bool in = val >= x.imin() && val <= x.imax(), amiss = af && araw == (uint64_t(1) << abits) - 1, ain = !af || amiss || ((int64_t)araw >= a.imin() && (int64_t)araw <= a.imax());
    if (!b)
    {
        ctx.check(!(in && ain), "refused-valid", "decoding failed: " + what);
        ctx.count("domain-refused"); return;
    }
    const Subset& s = b->subsets.at(0);
    unsigned p = af ? 1 : 0;
    ctx.check(s.size() == p + 1, "domain-count", vf::fmt("%zu variables: ", s.size()) + what);
    auto judge = [&](const Var* v, int64_t want, const ref::BInfo& i, bool missing, const char* name) {
        bool ok;
        int64_t lo = i.imin(), hi = i.imax();
        if (missing) ok = !v || !v->isset();
        else if (want >= lo && want <= hi) ok = v && v->isset() && v->enqi() == want;
        else if (opt == 1) ok = !v || !v->isset();
        else if (opt == 2) ok = v && v->isset() && v->enqi() == (want < lo ? lo : hi);
        else ok = v && v->isset() && v->enqi() == want;
        ctx.check(ok, std::string("domain-") + name, std::string(name) + " is " + (v ? cmp::show(*v) : "not there") + vf::fmt(", not %lld: ", (long long)want) + what);
        ctx.count(vf::fmt("domain-%s:%s:%u", name, missing ? "missing" : want >= lo && want <= hi ? "in" : "out", opt));
    };
    judge(&s[p], val, x, false, "value");
    if (af) judge(s[p].enqa(a.code), araw, a, amiss, "attribute");
}

void bufr_decode(vf::Ctx& ctx)
{
    notes::Collect collect(notes_out);
    vf::Rng& r = ctx.rng;
    if (r.chance(1, 20)) { domain_case(ctx); return; }
    unsigned kind = r.below(20);
    if (kind < 5)
    {
        auto& c = ref::bufr_corpus();
        const ref::Msg* m = &r.pick(c);
        for (unsigned i = 0; i < 4 && m->data.size() > 6000; ++i) m = &r.pick(c);
        std::string d = m->data;
        ref::Layout l = ref::layout(d);
        if (kind > 0 && l.ok && l.end > l.sec4 + 4)
        {
            // change data bits only
            for (unsigned i = 0, n = 1 + r.below(4); i < n; ++i)
            {
                size_t p = l.sec4 + 4 + r.below(l.end - l.sec4 - 4);
                if (r.chance(1, 3)) d[p] = r.chance(1, 2) ? 0xff : 0; else d[p] ^= 1 << r.below(8);
            }
            corpus_case(ctx, m->name, d, true);
        } else corpus_case(ctx, m->name, d, false);
        return;
    }
    ref::GenOpts o; o.big = true; o.factors = r.chance(1, 3);
    o.undef_attrs = r.chance(1, 4);
    o.max_items = r.chance(1, 5) ? 20 : 7;
    ref::GenMsg g = ref::gen_bufr(r, o);
    std::string what = describe(g);
    ctx.note(what);
    if (kind < 8 && r.chance(1, 3))
    {
        // Damage the frame, or cut the whole message
        std::string d = g.msg; ref::Layout l = ref::layout(d);
        if (!l.ok) throw std::runtime_error("generated message has a bad layout");
        const char* how;
        switch (r.below(7))
        {
            case 0: { size_t p = r.below(4); d[p] ^= 1 << r.below(8); how = "signature"; break; }
            case 1: { size_t p = l.end + r.below(4); d[p] ^= 1 << r.below(8); how = "end"; break; }
            case 2: { unsigned e; do e = r.chance(1, 2) ? r.below(8) : r.below(256); while (e >= 2 && e <= 4); d[7] = (char)e; how = "edition"; break; }
            case 3: d[l.sec3 + 4] = d[l.sec3 + 5] = 0; how = "no-subsets"; break;
            case 4:
            {
                std::vector<unsigned> at{l.sec1, l.sec3, l.sec4}; if (l.sec2) at.push_back(l.sec2);
                unsigned p = r.pick(at), room = d.size() - p;
                ref::put3(d, p, room + 1 + (r.chance(1, 2) ? r.below(4) : r.below(0xffffff - room)));
                how = "section-too-long"; break;
            }
            case 5: { std::vector<unsigned> at{l.sec1, l.sec3, l.sec4}; if (l.sec2) at.push_back(l.sec2); ref::put3(d, r.pick(at), r.below(4)); how = "section-too-short"; break; }
            default: d.resize(r.below(l.end + 4)); how = "cut"; break;
        }
        what = std::string("frame damaged (") + how + ") " + vf::hex(d, 900) + " from " + what;
        ctx.note(what);
        bool thrown = false;
        try { decode(d, o.undef_attrs); } catch (wreport::error&) { thrown = true; }
        ctx.check(thrown, std::string("accepted-frame:") + how, what);
        ctx.count(std::string("frame-refused:") + how); ctx.distinct(vf::fnv(d));
        return;
    }
    if (kind < 8 && g.data_bits > 0)
    {
        // Cut the data
        size_t need = (g.data_bits + 7) / 8;
        size_t keep = r.chance(1, 3) ? need - 1 : r.below(need);
        std::string cut = ref::assemble(g.h, g.subsets, g.compressed, g.dd, g.data.substr(0, keep), false);
        if (r.chance(1, 3) && g.h.edition != 4 && 0) cut = cut;
        ctx.note("truncated: " + what);
        bool thrown = false;
        try { decode(cut, o.undef_attrs); } catch (wreport::error&) { thrown = true; }
        ctx.check(thrown, "accepted-truncated", vf::fmt("decoding succeeded with %zu of %zu bytes of data: ", keep, need) + vf::hex(cut, 1500) + what);
        ctx.count("truncated-refused");
        ctx.distinct(vf::fnv(cut));
        return;
    }
    if (kind < 11)
    {
        // Change data bits and interpret again
        std::string d = g.msg;
        ref::Layout l = ref::layout(d);
        if (!l.ok) throw std::runtime_error("generated message has a bad layout");
        for (unsigned i = 0, n = 1 + r.below(3); i < n && g.data.size(); ++i)
            d[l.sec4 + 4 + r.below(g.data.size())] ^= 1 << r.below(8);
        if (l.dd.size() > g.dd.size()) l.dd.resize(g.dd.size()); // padding of section 3
        ref::TableSet t = ref::wmo_bufr(g.h.mtv);
        std::vector<ref::RSubset> exp; bool bad;
        if (!interpret(d, l, *t.b, *t.d, o.undef_attrs, exp, bad)) { ctx.count("mutated-out-of-scope"); return; }
        std::unique_ptr<BufrBulletin> b;
        what = "mutated " + vf::hex(d, 900) + " from " + what;
        ctx.note(what);
        try { b = decode(d, o.undef_attrs); }
        catch (wreport::error& e)
        {
            if (bad) { ctx.count("refused"); ctx.distinct(vf::fnv(d)); return; }
            ctx.failstop("refused-valid", std::string("decoding failed: ") + e.what() + ": " + what);
        }
        if (bad) ctx.failstop("accepted-incomplete", "decoding succeeded, but the data are not what the template asks for: " + what);
        compare(ctx, *b, exp, what);
        ctx.count("mutated-compared");
        ctx.distinct(vf::fnv(d));
        return;
    }
    std::unique_ptr<BufrBulletin> b;
    try { b = decode(g.msg, o.undef_attrs); }
    catch (wreport::error& e) { ctx.failstop("refused-valid", std::string("decoding failed: ") + e.what() + ": " + stats_sig(g) + what); }
    ctx.check(std::vector<ref::Code>(b->datadesc.begin(), b->datadesc.begin() + std::min(b->datadesc.size(), g.dd.size())) == g.dd, "descriptors", "data descriptors differ: " + what);
    compare(ctx, *b, g.expected, stats_sig(g) + what);
    observe(ctx, g);
}

vf::Reg r1("bufr_decode", bufr_decode);

// ------------------------------------------------------------------ encoding

void check_encoding(vf::Ctx& ctx, const ref::GenMsg& g, const Bulletin& b, const char* how, const std::string& what)
{
    std::string enc;
    try { enc = b.encode(); }
    catch (wreport::error& e) { ctx.failstop(vf::fmt("encode-refused:%s", how), std::string("encoding failed: ") + e.what() + ": " + what); }
    if (enc != g.encoded)
    {
        size_t p = 0; while (p < enc.size() && p < g.encoded.size() && enc[p] == g.encoded[p]) ++p;
        ctx.failstop(vf::fmt("encoded-bits:%s", how), vf::fmt("the encoded message differs from the reference at byte %zu: got ", p) + vf::hex(enc, 1500) + " expected " + vf::hex(g.encoded, 1500) + "; " + stats_sig(g) + what);
    }
    ctx.count(std::string("encoded:") + how);
    // and back
    std::unique_ptr<BufrBulletin> b2;
    try { b2 = BufrBulletin::decode(cmp::tight(enc), "enc", 0); }
    catch (wreport::error& e) { ctx.failstop("redecode", std::string("decoding what was encoded failed: ") + e.what() + ": " + what); }
    compare(ctx, *b2, g.expected, "after encoding: " + what);
    std::string enc2 = b2->encode();
    ctx.check(enc2 == enc, "not-idempotent", "encoding what was decoded gives something else: " + what);
}

void must_fail(vf::Ctx& ctx, const Bulletin& b, const char* how, const std::string& what)
{
    std::string enc; bool thrown = false;
    try { enc = b.encode(); } catch (wreport::error&) { thrown = true; }
    ctx.check(thrown, vf::fmt("encoded-unfitting:%s", how), std::string("encoding succeeded: ") + how + ": " + vf::hex(enc, 800) + what);
    ctx.count(std::string("refused:") + how);
}

void bufr_encode(vf::Ctx& ctx)
{
    notes::Collect collect(notes_out);
    vf::Rng& r = ctx.rng;
    ref::GenOpts o; o.big = true; o.factors = r.chance(1, 3);
    o.max_items = r.chance(1, 5) ? 20 : 7;
    ref::GenMsg g;
    do { g = ref::gen_bufr(r, o); } while (g.encode_ambiguous);
    std::string what = describe(g);
    ctx.note(what);
    observe(ctx, g);
    std::unique_ptr<BufrBulletin> b;
    bool built = r.chance(1, 2);
    if (built) b = cmp::build(g);
    else
    {
        try { b = BufrBulletin::decode(cmp::tight(g.msg), "gen", 0); }
        catch (wreport::error& e) { ctx.failstop("refused-valid", std::string("decoding failed: ") + e.what() + ": " + what); }
        if (b->datadesc.size() > g.dd.size()) b->datadesc.resize(g.dd.size()); // padding of section 3 read as a descriptor
    }
    check_encoding(ctx, g, *b, built ? "built" : "decoded", what);
    if (r.chance(1, 4) && std::none_of(g.dd.begin(), g.dd.end(), [](ref::Code c) { return ref::F(c) == 2 && (ref::X(c) == 3 || ref::X(c) >= 22); })
        && std::none_of(g.expected[0].begin(), g.expected[0].end(), [](const ref::RVar& v) { return ref::F(v.info.code) == 2 && ref::X(v.info.code) >= 22; }))
    {
        // Variables of another width, scale or reference with the same values
        unsigned k = 0;
        for (unsigned i = 0; i < g.subsets && i < 5; ++i) k += cmp::disguise(r, b->subsets[i], g.expected[i], true);
        if (k) { ctx.count("disguised", k); check_encoding(ctx, g, *b, "disguised", what); }
        return;
    }

    // Things that cannot be encoded
    unsigned si = r.below(g.subsets);
    Subset& s = b->subsets[si];
    const ref::RSubset& es = g.expected[si];
    switch (r.below(8))
    {
        case 7: // nothing to encode
            if (r.chance(1, 2)) { b->subsets.clear(); must_fail(ctx, *b, "no-subsets", what); }
            else { b->datadesc.clear(); must_fail(ctx, *b, "no-descriptors", what); }
            break;
        case 0: // the last variable is missing
            if (s.empty()) break;
            s.pop_back();
            must_fail(ctx, *b, "missing-variable", what);
            break;
        case 1: // a value outside of the field
        case 2:
        {
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < es.size(); ++i)
                if (ref::F(es[i].info.code) == 0 && ref::X(es[i].info.code) != 31 && (es[i].info.kind == ref::INT || es[i].info.kind == ref::DEC) && es[i].info.bit_len < 30 && std::abs(es[i].info.bit_ref) < (1 << 30)) cand.push_back(i);
            if (cand.empty()) break;
            unsigned p = r.pick(cand);
            // C03 takes the reference from the variable: leave those alone
            bool c03 = false; for (auto c : g.dd) if (ref::F(c) == 2 && ref::X(c) == 3) c03 = true;
            if (c03) break;
            const ref::BInfo& i = es[p].info;
            // the smallest and largest values that the field cannot hold; all ones means missing
            int64_t top = i.bit_ref + (int64_t(1) << i.bit_len) - 1;
            int64_t val;
            switch (r.below(4))
            {
                case 0: val = top; break;
                case 1: val = top + 1 + r.below(1000); break;
                case 2: val = i.bit_ref - 1; break;
                default: val = i.bit_ref - 1 - (int64_t)r.below(1000); break;
            }
            if (val > INT32_MAX - 1 || val < INT32_MIN + 1) break;
            // a variable able to hold it: same code and scale, wide and signed
            static std::map<std::pair<unsigned, int>, _Varinfo> wide;
            auto key = std::make_pair((unsigned)i.code, i.scale);
            auto it = wide.find(key);
            if (it == wide.end())
            {
                it = wide.emplace(key, _Varinfo()).first;
                Varinfo orig = s[p].info();
                it->second = *orig;
                it->second.set_bufr(orig->code, orig->desc, orig->unit, orig->scale, 10, INT32_MIN / 2, 31);
                it->second.type = orig->type;
                it->second.imin = INT32_MIN; it->second.imax = INT32_MAX; it->second.dmin = -1e30; it->second.dmax = 1e30;
            }
            Var v(&it->second);
            try { v.seti(val); } catch (wreport::error&) { break; }
            // attributes are kept
            for (const Var* a = s[p].next_attr(); a; a = a->next_attr()) { Var c(a->info()); if (a->isset()) c.setval(*a); v.seta(c); }
            s[p] = v;
            must_fail(ctx, *b, "value-does-not-fit", vf::fmt("%lld in %s; ", (long long)val, es[p].str().c_str()) + what);
            break;
        }
        case 3: // a string longer than the field
        {
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < es.size(); ++i)
                if (ref::F(es[i].info.code) == 0 && es[i].info.kind == ref::STR && es[i].info.bit_len < 400) cand.push_back(i);
            if (cand.empty()) break;
            unsigned p = r.pick(cand);
            if (r.chance(1, 4) && ref::F(es[p].info.code) == 0)
            {
                // An empty string is all blanks
                for (auto& x : es) if (ref::F(x.info.code) == 2 && ref::X(x.info.code) != 5) return;
                Var v(s[p].info()); v.setc("");
                for (const Var* a = s[p].next_attr(); a; a = a->next_attr()) { Var c(a->info()); if (a->isset()) c.setval(*a); v.seta(c); }
                s[p] = v;
                std::vector<ref::RSubset> exp = g.expected;
                exp[si][p].isset = true; exp[si][p].s = " ";
                std::unique_ptr<BufrBulletin> b2;
                try { b2 = BufrBulletin::decode(cmp::tight(b->encode()), "enc", 0); }
                catch (wreport::error& e) { ctx.failstop("encode-refused:empty-string", std::string(e.what()) + ": " + what); }
                compare(ctx, *b2, exp, "after encoding an empty string: " + what);
                ctx.count("empty-string");
                break;
            }
            unsigned n = es[p].info.bit_len / 8 + 1 + r.below(3);
            Varinfo wi = b->tables.btable->query_altered(es[p].info.code, es[p].info.scale, n * 8, es[p].info.bit_ref);
            Var v(wi); v.setc(std::string(n, 'x').c_str());
            for (const Var* a = s[p].next_attr(); a; a = a->next_attr()) { Var c(a->info()); if (a->isset()) c.setval(*a); v.seta(c); }
            s[p] = v;
            // strings are cut at the length of the field
            for (auto& x : es) if (ref::F(x.info.code) == 2 && ref::X(x.info.code) != 5) return;
            std::vector<ref::RSubset> exp = g.expected;
            exp[si][p].isset = true; exp[si][p].s = std::string(es[p].info.bit_len / 8, 'x');
            std::string enc;
            try { enc = b->encode(); }
            catch (wreport::error&) { ctx.count("refused:long-string"); break; }
            auto b2 = BufrBulletin::decode(cmp::tight(enc), "enc", 0);
            compare(ctx, *b2, exp, "after encoding a longer string: " + what);
            ctx.count("long-string");
            break;
        }
        case 4: // a delayed replication factor that does not match
        {
            // make the number of repetitions larger than the variables that follow
            if (o.factors || !std::count_if(g.dd.begin(), g.dd.end(), [](ref::Code c) { return ref::F(c) == 1 && ref::Y(c) == 0; })) break;
            unsigned p = es.size();
            for (unsigned i = 0; i < es.size(); ++i) if (es[i].info.code == ref::mk(0, 31, 1) || es[i].info.code == ref::mk(0, 31, 2)) p = i;
            if (p == es.size()) break;
            bool bitmaps = false; for (auto& v : es) if (ref::F(v.info.code) == 2) bitmaps = true;
            if (bitmaps) break;
            int val = 200 + r.below(40);
            if (val <= (int)(es.size() - p)) break;
            s[p].seti(val);
            must_fail(ctx, *b, "factor-too-large", what);
            break;
        }
        case 5: // an associated field that does not fit
        {
            unsigned bits = 0; bool bm = false;
            for (auto c : g.dd) { if (ref::F(c) == 2 && ref::X(c) == 4) bits = std::max(bits, ref::Y(c)); if (ref::F(c) == 2 && ref::X(c) >= 22) bm = true; }
            if (!bits || bm || bits > 6) break;
            for (unsigned i = 0; i < es.size(); ++i)
            {
                if (es[i].attrs.size() != 1) continue;
                const ref::RVar& a = es[i].attrs[0];
                int64_t v = (int64_t(1) << bits) + (r.chance(1, 2) ? r.below(3) : 0);
                if (v > a.info.imax()) continue;
                s[i].seta(Var(b->tables.btable->query(a.info.code), (int)v));
                must_fail(ctx, *b, "associated-field-does-not-fit", what);
                break;
            }
            break;
        }
        case 6: // a bitmap of the wrong length
        {
            bool fixed = false, del = false;
            for (unsigned i = 0; i + 1 < g.dd.size(); ++i)
                if (g.dd[i + 1] == ref::mk(0, 31, 31)) { if (ref::F(g.dd[i]) == 1 && ref::Y(g.dd[i])) fixed = true; else del = true; }
            if (!fixed || del) break;
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < es.size(); ++i) if (ref::F(es[i].info.code) == 2 && ref::X(es[i].info.code) >= 22 && es[i].isset) cand.push_back(i);
            if (cand.empty()) break;
            unsigned p = r.pick(cand);
            std::string bm = es[p].s;
            if (r.chance(1, 2)) bm += r.chance(1, 2) ? '+' : '-';
            else if (bm.size() > 1) bm.resize(bm.size() - 1);
            else bm += "-";
            s[p] = Var(b->tables.get_bitmap(es[p].info.code, bm), bm);
            must_fail(ctx, *b, "bitmap-length", what);
            break;
        }
    }
}

vf::Reg r2("bufr_encode", bufr_encode);

}
