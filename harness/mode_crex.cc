// CREX decoding and encoding against the reference model (C05)
#include "cmp.h"
#include "crexutil.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <algorithm>

using namespace wreport;

namespace {

void compare(vf::Ctx& ctx, const CrexBulletin& b, const ref::CrexMsg& g, const std::string& what, bool factors = true)
{
    ctx.check(b.master_table_number == g.mtn && b.edition_number == g.ed && b.master_table_version_number == g.mtv, "header-tables", "table numbers differ: " + what);
    ctx.check(b.data_category == g.cat && b.data_subcategory == g.subcat, "header-category", vf::fmt("category %u:%u instead of %u:%u: ", b.data_category, b.data_subcategory, g.cat, g.subcat) + what);
    ctx.check(b.has_check_digit == g.check, "header-check-digit", "check digit flag differs: " + what);
    ctx.check(b.subsets.size() == g.expected.size(), "subset-count", vf::fmt("%zu subsets instead of %zu: ", b.subsets.size(), g.expected.size()) + what);
    for (unsigned i = 0; i < g.expected.size(); ++i)
    {
        std::string e;
        if (factors) e = cmp::subset(b.subsets[i], g.expected[i], false);
        else
        {
            ref::RSubset x = g.expected[i];
            for (unsigned k = 0; k < x.size() && k < b.subsets[i].size(); ++k)
                if (ref::X(x[k].info.code) == 31 && ref::X(b.subsets[i][k].code()) == 31) { auto& vi = *b.subsets[i][k].info(); x[k].info.code = vi.code; x[k].info.len = vi.len; }
            e = cmp::subset(b.subsets[i], x, false);
        }
        ctx.check(e.empty(), "decoded-value", vf::fmt("subset %u: ", i) + e + "; " + what);
    }
}

void must_throw(vf::Ctx& ctx, const std::string& m, const char* how, const std::string& what)
{
    bool thrown = false;
    try { CrexBulletin::decode(cmp::tight(m), "gen", 0); } catch (wreport::error&) { thrown = true; }
    ctx.check(thrown, vf::fmt("accepted:%s", how), std::string("decoding succeeded: ") + how + ": " + vf::jstr(m.substr(0, 1500)) + " from " + what);
    ctx.count(std::string("refused:") + how);
}
void encode_must_throw(vf::Ctx& ctx, const Bulletin& b, const char* how, const std::string& what)
{
    bool thrown = false; std::string e;
    try { e = b.encode(); } catch (wreport::error&) { thrown = true; }
    ctx.check(thrown, vf::fmt("encoded:%s", how), std::string("encoding succeeded: ") + how + ": " + vf::jstr(e.substr(0, 1500)) + " from " + what);
    ctx.count(std::string("encode-refused:") + how);
}

// A message with one part of its frame damaged
void frame(vf::Ctx& ctx, const ref::CrexMsg& g, const std::string& what)
{
    vf::Rng& r = ctx.rng;
    std::string m = g.canonical;
    // CREX++ CR CR LF Tttvvvv SPACE Accc[sss]
    const size_t t = 9, a = m.find(' ', t) + 1, d = m.find(' ', a), e = m.find("++", a);
    if (m[t] != 'T' || m[a] != 'A' || m.compare(e, 2, "++") != 0) throw std::runtime_error("unexpected layout");
    auto other = [&](const char* not_these) { char c; do { c = (char)r.range(33, 126); } while (strchr(not_these, c)); return c; };
    const char* how;
    switch (r.below(9))
    {
        case 0: { size_t p = r.below(6); char c = m[p]; while (m[p] == c) m[p] = (char)r.range(33, 126); how = "frame:CREX++"; break; }
        case 1: m[t] = other("T"); how = "frame:T"; break;
        case 2: m[a] = other("A"); how = "frame:A"; break;
        case 3: { m.erase(a, d - a); m.insert(a, "A" + std::string(std::vector<unsigned>{0, 1, 2, 4, 5, 7, 8}[r.below(7)], '1')); how = "frame:A-digits"; break; }
        case 4: m.erase(t, a - t); m.insert(t, "T" + std::string(r.below(4), '1') + " "); how = "frame:T-digits"; break;
        case 5: { size_t p = d + 1; m[p] = other("BRCDE+"); how = "frame:descriptor"; break; }
        case 6: { size_t p = d + 2 + r.below(5); m[p] = other("0123456789"); how = "frame:descriptor-digits"; break; }
        case 7: m[e + 1] = other("+"); how = "frame:descriptors-end"; break;
        default: { size_t p = m.rfind("7777") + r.below(4); m[p] = other("7"); how = "frame:7777"; break; }
    }
    must_throw(ctx, m, how, what);
    // The header alone
    if (strcmp(how, "frame:7777") != 0)
    {
        bool thrown = false;
        try { CrexBulletin::decode_header(cmp::tight(m), "gen", 0); } catch (wreport::error&) { thrown = true; }
        ctx.check(thrown, vf::fmt("header-accepted:%s", how), vf::jstr(m.substr(0, 600)));
    }
}

void crex(vf::Ctx& ctx)
{
    vf::Rng& r = ctx.rng;
    ref::CrexMsg g = ref::gen_crex(r, true);
    if (g.big) ctx.count("big");
    if (g.expected.size() > 255) ctx.count("subsets>255");
    if (g.dd.size() > 255) ctx.count("descriptors>255");
    for (unsigned i = 0; i < g.expected.size(); ++i) for (unsigned k = 0; k < g.kinds[i].size(); ++k) if (g.kinds[i][k] == 'f' && g.expected[i][k].i > 255) ctx.count("factors>255");
    std::string what = vf::jstr(g.msg.substr(0, 1500));
    ctx.note(what);
    ctx.distinct(g.shape);
    if (ctx.case_no < 4) ctx.sample(what);
    std::unique_ptr<CrexBulletin> b;
    try { b = CrexBulletin::decode(cmp::tight(g.msg), "gen", 0); }
    catch (wreport::error& e) { ctx.failstop("refused-valid", std::string("decoding failed: ") + e.what() + ": " + what); }
    std::vector<ref::Code> dd(b->datadesc.begin(), b->datadesc.end());
    ctx.check(dd == g.dd, "descriptors", "data descriptors differ: " + what);
    compare(ctx, *b, g, what);
    ctx.count(g.check ? "with-check-digits" : "without-check-digits");
    for (unsigned i = 0; i < g.expected.size(); ++i)
    {
        ctx.count("vars-compared", g.expected[i].size());
        for (auto& v : g.expected[i]) if (!v.isset) ctx.count("missing-compared"); else if (v.info.kind == ref::STR) ctx.count("strings-compared"); else if (v.i < 0) ctx.count("negatives-compared");
        for (auto k : g.kinds[i]) if (k == 'f') ctx.count("factors");
    }
    // Encoding
    bool built = r.chance(1, 2);
    if (built) b = cmp::build(g);
    std::string enc;
    try { enc = b->encode(); }
    catch (wreport::error& e) { ctx.failstop("encode-refused", std::string("encoding failed: ") + e.what() + ": " + what); }
    ctx.check(enc == g.canonical, "encoded-text", "encoded as " + vf::jstr(enc.substr(0, 1500)) + " instead of " + vf::jstr(g.canonical.substr(0, 1500)));
    ctx.count(built ? "encoded:built" : "encoded:decoded");
    bool factors = !g.explicit_factor;
    std::unique_ptr<CrexBulletin> b2;
    {
        try { b2 = CrexBulletin::decode(cmp::tight(enc), "enc", 0); }
        catch (wreport::error& e) { ctx.failstop("redecode", std::string("decoding what was encoded failed: ") + e.what() + ": " + vf::jstr(enc.substr(0, 1500))); }
        compare(ctx, *b2, g, "after encoding: " + vf::jstr(enc.substr(0, 1500)), factors);
        ctx.count("roundtrips");
    }
    if (r.chance(1, 4))
    {
        // Variables of another width and scale with the same values
        unsigned k = 0;
        for (unsigned i = 0; i < g.expected.size() && i < 5; ++i) k += cmp::disguise(r, b->subsets[i], g.expected[i], false);
        if (k)
        {
            ctx.count("disguised", k);
            try { enc = b->encode(); }
            catch (wreport::error& e) { ctx.failstop("encode-refused", std::string("encoding variables of other widths and scales failed: ") + e.what() + ": " + what); }
            ctx.check(enc == g.canonical, "encoded-text", "with variables of other widths and scales, encoded as " + vf::jstr(enc.substr(0, 1500)) + " instead of " + vf::jstr(g.canonical.substr(0, 1500)));
        }
    }
    // What must be refused
    unsigned si = r.below(g.tokens.size());
    auto toks = g.tokens;
    if (r.chance(1, 6)) { frame(ctx, g, what); return; }
    switch (r.below(9))
    {
        case 0: case 1: // cut anywhere before the end
        {
            size_t e = g.msg.rfind("7777");
            must_throw(ctx, g.msg.substr(0, r.chance(1, 4) ? e + r.below(4) : r.below(e + 4)), "truncated", what);
            break;
        }
        case 2: // wrong check digit
        {
            if (!g.check) break;
            // find the position of a check digit by laying the message out with a marker
            unsigned ti = r.below(toks[si].size());
            unsigned n = 0; for (unsigned i = 0; i < si; ++i) n += toks[i].size();
            n += ti;
            char right = '0' + (n + 1) % 10;
            auto mark = toks; for (auto& s : mark) for (auto& x : s) x = std::string(x.size(), 'M');
            mark[si][ti][0] = 'Q';
            std::string a = ref::crex_layout(g, true, nullptr, mark), m = g.canonical;
            size_t p = a.find('Q', a.find("++\r\r\n", 6));
            if (p == std::string::npos || a.size() != m.size() || m[p - 1] != right) throw std::runtime_error("cannot find check digit");
            m[p - 1] = '0' + (right - '0' + 1 + r.below(9)) % 10;
            must_throw(ctx, m, "wrong-check-digit", what);
            break;
        }
        case 3: // a number with something else inside
        {
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < toks[si].size(); ++i) if (g.kinds[si][i] != 's' && toks[si][i][0] != '/') cand.push_back(i);
            if (cand.empty()) break;
            std::string& t = toks[si][r.pick(cand)];
            size_t p = r.below(t.size());
            if (p > (t[0] == '-' ? 1 : 0) && r.chance(1, 3)) t[p] = '/'; else t[p] = "xX.+,EA"[r.below(7)];
            must_throw(ctx, ref::crex_layout(g, true, nullptr, toks), "not-a-number", what);
            break;
        }
        case 4: // last value gone
        {
            if (g.kinds[si].back() == 's') break;
            toks[si].pop_back();
            must_throw(ctx, ref::crex_layout(g, true, nullptr, toks), "missing-value", what);
            break;
        }
        case 5: // one value too many
            toks[si].push_back("123");
            must_throw(ctx, ref::crex_layout(g, true, nullptr, toks), "extra-value", what);
            break;
        case 6: // encoding with a variable less
            b->subsets[si].pop_back();
            encode_must_throw(ctx, *b, "missing-variable", what);
            break;
        case 7: // encoding a number that does not fit
        {
            std::vector<unsigned> cand;
            for (unsigned i = 0; i < g.expected[si].size(); ++i) if (g.kinds[si][i] == 'n' && g.expected[si][i].info.len < 9) cand.push_back(i);
            if (cand.empty()) break;
            unsigned p = r.pick(cand);
            const ref::BInfo& i = g.expected[si][p].info;
            static std::map<std::pair<unsigned, int>, _Varinfo> wide;
            auto key = std::make_pair((unsigned)i.code, i.scale);
            auto it = wide.find(key);
            if (it == wide.end())
            {
                it = wide.emplace(key, *b->subsets[si][p].info()).first;
                it->second.set_crex(i.code, "wide", b->subsets[si][p].info()->unit, i.scale, 10);
                it->second.type = b->subsets[si][p].info()->type;
            }
            int v = 1; for (unsigned k = 0; k < i.len; ++k) v *= 10;
            v += r.chance(1, 2) ? 0 : r.below(v);
            if (r.chance(1, 2)) v = -v;
            b->subsets[si][p] = Var(&it->second, v);
            encode_must_throw(ctx, *b, "number-too-long", vf::fmt("%d in %s; ", v, i.str().c_str()) + what);
            break;
        }
        case 8: // a factor larger than what follows
        {
            unsigned p = g.kinds[si].size();
            for (unsigned i = 0; i < g.kinds[si].size(); ++i) if (g.kinds[si][i] == 'f') p = i;
            if (p == g.kinds[si].size()) break;
            if ((int64_t)g.expected[si].size() + 5 > g.expected[si][p].info.imax()) break;
            b->subsets[si][p].seti(g.expected[si].size() + 5);
            encode_must_throw(ctx, *b, "factor-too-large", what);
            break;
        }
    }
}

// The one known way in which text does not survive: blanks at the beginning of
// a string are taken as separators when there are no check digits
void crex_blank_probe(vf::Ctx& ctx)
{
    ctx.distinct(ctx.case_no); ctx.count("probes");
    auto b = CrexBulletin::create();
    b->edition_number = 2; b->master_table_version_number = 3; b->master_table_version_number_bufr = 0; b->data_category = 0; b->data_subcategory = 0xff;
    b->load_tables();
    b->datadesc.push_back(WR_VAR(0, 1, 11)); b->datadesc.push_back(WR_VAR(0, 12, 101));
    Subset& s = b->obtain_subset(0);
    s.store_variable_c(WR_VAR(0, 1, 11), " AB"); s.store_variable_i(WR_VAR(0, 12, 101), 10);
    std::string enc = b->encode();
    std::string got = "error";
    try { auto b2 = CrexBulletin::decode(enc, "probe", 0); got = b2->subsets[0][0].isset() ? b2->subsets[0][0].enqs() : "(unset)"; } catch (wreport::error& e) { got = e.what(); }
    if (got != " AB") ctx.fail("crex-leading-blank", "B01011=\" AB\" encoded without check digits is read back as: " + got);
}

vf::Reg r1("crex", crex, cmp::setup_crex), r2("crex_blank_probe", crex_blank_probe);

}
