// C20: headers are encoded and decoded without loss
#include "crexutil.h"
#include "cmp.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/tableinfo.h>
using namespace wreport;
using vf::fmt;

namespace {

std::string show(const ref::BufrHeader& h)
{
    return fmt("edition %u master table %u version %u local %u centre %u:%u update %u category %u:%u:%u time %u-%u-%u %u:%u:%u optional section ", h.edition, h.mtn, h.mtv, h.mtvl, h.centre, h.subcentre, h.usn,
        h.cat, h.subcat, h.lsubcat, h.year, h.month, h.day, h.hour, h.minute, h.second) + fmt("%zu bytes ", h.opt.size()) + vf::hex(h.opt, 40);
}

// Random header; out of the edition's possibilities only if `wild`
ref::BufrHeader gen_header(vf::Rng& r, const ref::BufrHeader& base, bool wild, bool keep_tables)
{
    ref::BufrHeader h = base;
    h.edition = 2 + r.below(3);
    unsigned wide = h.edition == 4 || wild ? 65536 : 256;
    auto num = [&](unsigned n) -> unsigned { switch (r.below(5)) { case 0: return 0; case 1: return n - 1; case 2: return r.chance(1, 2) ? n / 2 : n / 2 - 1; case 3: return r.below(std::min(n, 300u)); default: return r.below(n); } };
    if (!keep_tables)
    {
        h.mtv = r.chance(1, 3) ? num(256) : r.range(0, 33);
        h.mtn = r.chance(1, 4) ? num(256) : 0;
        h.mtvl = num(256);
    }
    h.centre = num(wide); h.subcentre = num(wide); h.usn = num(256);
    h.cat = num(256); h.subcat = num(256); h.lsubcat = num(256);
    h.year = h.edition == 4 || wild ? num(65536) : r.range(1951, 2050);
    if (r.chance(1, 6)) h.year = r.pick(std::vector<unsigned>{1951, 1999, 2000, 2001, 2049, 2050, 1970, 2020});
    h.month = num(256); h.day = num(256); h.hour = num(256); h.minute = num(256); h.second = num(256);
    h.opt.clear();
    if (r.chance(1, 2))
    {
        unsigned n = r.chance(1, 40) ? r.below(70000) : r.chance(1, 3) ? 1 + r.below(4) : r.below(300);
        for (unsigned i = 0; i < n; ++i) h.opt += r.chance(1, 4) ? '\0' : (char)r.below(256);
    }
    return h;
}

void set(BufrBulletin& b, const ref::BufrHeader& h)
{
    b.edition_number = h.edition; b.master_table_number = h.mtn; b.master_table_version_number = h.mtv; b.master_table_version_number_local = h.mtvl;
    b.originating_centre = h.centre; b.originating_subcentre = h.subcentre; b.update_sequence_number = h.usn;
    b.data_category = h.cat; b.data_subcategory = h.subcat; b.data_subcategory_local = h.lsubcat;
    b.rep_year = h.year; b.rep_month = h.month; b.rep_day = h.day; b.rep_hour = h.hour; b.rep_minute = h.minute; b.rep_second = h.second;
    b.optional_section = h.opt;
}

// What a decoder must find of header h
void compare(vf::Ctx& c, const BufrBulletin& b, ref::BufrHeader h, bool padded_opt, const std::string& what)
{
    bool ed4 = h.edition == 4;
    if (!ed4)
    {
        h.centre &= 0xff; h.subcentre &= 0xff; h.subcat = 0xff; h.second = 0;
        unsigned yy = h.year == 2000 ? 100 : h.year % 100;
        h.year = yy > 50 ? 1900 + yy : 2000 + yy;
    }
    if (padded_opt && h.opt.size() % 2) h.opt += '\0';
#define SAME(f, v) c.check((unsigned)b.f == (unsigned)(v), "header:" #f, fmt(#f " is %u instead of %u: ", (unsigned)b.f, (unsigned)(v)) + what)
    SAME(edition_number, h.edition); SAME(master_table_number, h.mtn); SAME(master_table_version_number, h.mtv); SAME(master_table_version_number_local, h.mtvl);
    SAME(originating_centre, h.centre); SAME(originating_subcentre, h.subcentre); SAME(update_sequence_number, h.usn);
    SAME(data_category, h.cat); SAME(data_subcategory, h.subcat); SAME(data_subcategory_local, h.lsubcat);
    SAME(rep_year, h.year); SAME(rep_month, h.month); SAME(rep_day, h.day); SAME(rep_hour, h.hour); SAME(rep_minute, h.minute);
    SAME(rep_second, h.second);
    c.check(b.optional_section == h.opt, "header:optional_section", fmt("optional section is %zu bytes ", b.optional_section.size()) + vf::hex(b.optional_section, 60) + fmt(" instead of %zu ", h.opt.size()) + vf::hex(h.opt, 60) + what);
    c.count("fields-compared", 17);
}
void compare_dd(vf::Ctx& c, const BufrBulletin& b, const std::vector<ref::Code>& dd, bool padding, const std::string& what)
{
    // the padding of section 3 can be long enough for another descriptor
    size_t n = b.datadesc.size();
    bool ok = n == dd.size() || (padding && n > dd.size());
    for (size_t i = 0; ok && i < dd.size(); ++i) ok = b.datadesc[i] == dd[i];
    c.check(ok, "header:datadesc", fmt("%zu data descriptors instead of %zu: ", n, dd.size()) + what);
}
std::string table_path(const ref::BufrHeader& h)
{
    unsigned m = h.edition == 4 ? 0xffff : 0xff;
    try { Tables t; t.load_bufr(BufrTableID(h.centre & m, h.subcentre & m, h.mtn, h.mtv, h.mtvl)); return t.btable->path().string() + " " + t.dtable->path().string(); }
    catch (wreport::error&) { return ""; }
}

void bufr_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    ref::GenOpts o; o.max_items = 3; o.force_plain = r.chance(2, 3);
    ref::GenMsg g;
    do g = ref::gen_bufr(r, o); while (g.encode_ambiguous);
    bool keep = r.chance(1, 2), wild = r.chance(1, 4);
    ref::BufrHeader h = gen_header(r, g.h, wild, keep);
    std::string what = show(h) + " descriptors" + cmp::dds(g.dd);
    c.note(what);
    c.distinct(vf::fnv(what));
    if (c.samples.size() < 2) c.sample(what);
    std::string orig_tables = table_path(g.h), tables = table_path(h);

    // Writing
    auto b = cmp::build(g);
    set(*b, h);
    b->compression = r.chance(1, 4);
    ref::Layout l = ref::layout(g.encoded);
    std::string data = g.encoded.substr(l.sec4 + 4, l.end - l.sec4 - 4);
    std::string want = ref::assemble(h, g.subsets, false, g.dd, data, true);
    std::string enc;
    try { enc = b->encode(); } catch (wreport::error& e) { c.failstop("header-refused", std::string("encoding failed: ") + e.what() + ": " + what); }
    if (enc != want)
    {
        size_t p = 0; while (p < enc.size() && p < want.size() && enc[p] == want[p]) ++p;
        c.failstop("header-octets", fmt("octet %zu of the encoded message is wrong: ", p) + vf::hex(enc, 120) + " instead of " + vf::hex(want, 120) + ": " + what);
    }
    c.count(fmt("encoded:edition%u", h.edition));
    // An edition that does not exist
    {
        unsigned bad; do bad = r.below(256); while (bad >= 2 && bad <= 4);
        b->edition_number = bad; bool thrown = false;
        try { b->encode(); } catch (wreport::error&) { thrown = true; }
        c.check(thrown, "edition-accepted", fmt("encoding edition %u did not fail", bad));
        std::string m = enc; m[7] = bad; thrown = false;
        try { BufrBulletin::decode_header(cmp::tight(m)); } catch (wreport::error&) { thrown = true; }
        c.check(thrown, "edition-accepted", fmt("decoding edition %u did not fail", bad));
        thrown = false;
        try { BufrBulletin::decode(cmp::tight(m)); } catch (wreport::error&) { thrown = true; }
        c.check(thrown, "edition-accepted", fmt("decoding edition %u did not fail", bad));
        b->edition_number = h.edition;
        c.count("bad-editions");
    }
    // Reading back: what was encoded, and another layout with the same header
    for (unsigned k = 0; k < 2; ++k)
    {
        if (k && !wild && h.edition != 4 && (h.year < 1951 || h.year > 2050)) continue;
        std::string m = k ? ref::assemble(h, g.subsets, g.compressed, g.dd, g.data, false, &r) : enc;
        std::string w = (k ? "another layout: " : "as encoded: ") + what;
        bool comp = k && g.compressed;
        std::unique_ptr<BufrBulletin> d;
        auto opts = BufrCodecOptions::create(); bool with_opts = r.chance(1, 3);
        std::string fname = r.chance(1, 2) ? "h" : fmt("dir/some file %u", (unsigned)r.below(100));
        off_t offset = r.chance(1, 2) ? r.below(1000000) : r.chance(1, 2) ? 0 : 6000000000ll;
        ref::Layout dl = ref::layout(m);
        unsigned want_end[6] = {8, dl.sec2 ? dl.sec2 : dl.sec3, dl.sec3, dl.sec4, (unsigned)m.size() - 4, (unsigned)m.size()};
        auto place = [&](bool full) {
            c.check(d->fname == fname && d->offset == offset, "header:place", d->fname + fmt(":%lld instead of ", (long long)d->offset) + fname + fmt(":%lld: ", (long long)offset) + w);
            for (unsigned i = 0; full && i < 6; ++i)
                c.check(d->section_end[i] == want_end[i], "header:section_end", fmt("section %u ends at %u instead of %u: ", i, d->section_end[i], want_end[i]) + w);
        };
        try { d = with_opts ? BufrBulletin::decode_header(cmp::tight(m), *opts, fname.c_str(), offset) : BufrBulletin::decode_header(cmp::tight(m), fname.c_str(), offset); }
        catch (wreport::error& e) { c.check(tables.empty(), "header-not-decoded", std::string(e.what()) + ": " + w); c.count("no-tables"); continue; }
        c.check(!tables.empty(), "header-decoded-without-tables", w);
        compare(c, *d, h, k == 0, w);
        compare_dd(c, *d, g.dd, k == 1, w);
        c.check(d->compression == comp, "header:compression", w);
        place(false);
        c.check(d->tables.btable->path().string() + " " + d->tables.dtable->path().string() == tables, "header:tables", w);
        c.count("headers-decoded");
        if (tables != orig_tables) continue;
        try { d = with_opts ? BufrBulletin::decode(cmp::tight(m), *opts, fname.c_str(), offset) : BufrBulletin::decode(cmp::tight(m), fname.c_str(), offset); }
        catch (wreport::error& e) { c.failstop("message-not-decoded", std::string(e.what()) + ": " + w); }
        compare(c, *d, h, k == 0, w);
        compare_dd(c, *d, g.dd, k == 1, w);
        c.check(d->compression == comp, "header:compression", w);
        c.check(d->subsets.size() == g.subsets, "header:subsets", fmt("%zu subsets instead of %u: ", d->subsets.size(), g.subsets) + w);
        place(true);
        c.count("messages-decoded");
        // and once more
        if (k == 0 && (h.edition == 4 || (h.year >= 1951 && h.year <= 2050)))
        {
            std::string enc2 = d->encode();
            c.check(enc2 == enc, "header-not-stable", "encoding what was decoded gives something else: " + w);
            c.count("stable");
        }
    }
}

// Many subsets and descriptors
void big_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    auto b = BufrBulletin::create();
    b->edition_number = 2 + r.below(3); b->master_table_version_number = 24; b->originating_centre = b->originating_subcentre = 0;
    unsigned nd = r.chance(1, 2) ? 1 : 1 + r.below(600), ns = nd > 1 ? 1 + r.below(3) : r.pick(std::vector<unsigned>{1, 255, 256, 257, 1000, 32768, 65535});
    for (unsigned i = 0; i < nd; ++i) b->datadesc.push_back(WR_VAR(0, 1, 1));
    b->load_tables();
    for (unsigned i = 0; i < ns; ++i) { Subset& s = b->obtain_subset(i); for (unsigned k = 0; k < nd; ++k) s.store_variable_i(WR_VAR(0, 1, 1), (i + k) % 100); }
    c.note(fmt("%u subsets of %u variables", ns, nd));
    c.distinct(ns * 1000003ull + nd);
    std::string enc = b->encode();
    ref::Layout l = ref::layout(enc);
    c.check(l.ok && l.subsets == ns, "header:subsets", fmt("%u subsets were written instead of %u", l.subsets, ns));
    auto d = BufrBulletin::decode(enc);
    c.check(d->subsets.size() == ns && d->datadesc == b->datadesc, "header:subsets", fmt("%zu subsets decoded instead of %u", d->subsets.size(), ns));
    for (unsigned i = 0; i < ns; i += 1 + ns / 50) c.check(d->subsets[i].size() == nd && d->subsets[i][nd - 1].enqi() == (int)((i + nd - 1) % 100), "header:subsets", fmt("subset %u is not the one encoded", i));
    if (ns == 65535)
    {
        b->obtain_subset(65535).store_variable_i(WR_VAR(0, 1, 1), 1); bool thrown = false;
        try { b->encode(); } catch (wreport::error&) { thrown = true; }
        c.check(thrown, "too-many-subsets", "65536 subsets were encoded");
        c.count("too-many-subsets");
    }
    c.count("big");
}

// Sections and messages of any size up to what fits in 24 bits
void huge_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    auto b = BufrBulletin::create();
    b->edition_number = 2 + r.below(3); b->master_table_version_number = 24; b->originating_centre = b->originating_subcentre = 0;
    b->data_category = r.below(256); b->rep_year = 1951 + r.below(100); b->update_sequence_number = r.below(256);
    b->datadesc.push_back(WR_VAR(0, 1, 1));
    b->load_tables();
    b->obtain_subset(0).store_variable_i(WR_VAR(0, 1, 1), 42);
    static const unsigned at[] = {256, 512, 32768, 65536, 65536, 131072, 8388608, 16777216};
    unsigned n = at[r.below(8)] - 80 + r.below(100);
    std::string opt(n, 0); for (unsigned k = 0; k < 64; ++k) opt[r.below(n)] = r.below(256);
    opt[n - 1] = 1 + r.below(255);
    b->optional_section = opt;
    // sections 0, 1, 3, 4 and 5
    size_t total = 8 + (b->edition_number == 4 ? 22 : 18) + 4 + n + n % 2 + 10 + 6 + 4;
    c.note(fmt("BUFR edition %u with an optional section of %u bytes", b->edition_number, n));
    c.distinct(n * 8ull + b->edition_number);
    std::string enc; bool thrown = false;
    try { enc = b->encode(); } catch (wreport::error&) { thrown = true; }
    if (total > 0xffffff) { c.check(thrown, "header:too-long", fmt("a message of %zu bytes was encoded", total)); c.count("too-long-refused"); return; }
    c.check(!thrown, "header:long-refused", fmt("a message of %zu bytes was not encoded", total));
    ref::Layout l = ref::layout(enc);
    c.check(enc.size() == total && l.ok, "header:long-layout", fmt("the message is %zu bytes long instead of %zu, or malformed", enc.size(), total));
    std::string want = opt; if (n % 2) want += '\0';
    for (unsigned k = 0; k < 2; ++k)
    {
        auto d = k ? BufrBulletin::decode(enc) : BufrBulletin::decode_header(enc);
        c.check(d->optional_section == want || d->optional_section == opt, "header:optional-section", fmt("%zu bytes of optional section, not those encoded, instead of %zu", d->optional_section.size(), want.size()));
        c.check(d->data_category == b->data_category && d->update_sequence_number == b->update_sequence_number && d->rep_year == b->rep_year && d->datadesc == b->datadesc, "header:after-optional-section", "the header changes");
        if (k) c.check(d->subsets.size() == 1 && d->subsets[0].size() == 1 && d->subsets[0][0].enqi() == 42, "header:after-optional-section", "the data change");
    }
    c.count("huge");
}

void crex_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    ref::CrexMsg g = ref::gen_crex(r);
    auto b = cmp::build(g);
    ref::CrexMsg h = g;
    bool wild = r.chance(1, 5);
    if (r.chance(1, 2)) { h.mtn = wild ? r.below(256) : r.chance(1, 2) ? 0 : r.below(100); h.ed = wild ? r.below(256) : r.chance(1, 2) ? 1 + r.below(2) : r.below(100); h.mtv = wild ? r.below(256) : r.below(100); }
    h.cat = r.chance(1, 4) ? 255 : r.below(256); h.subcat = r.chance(1, 3) ? 255 : r.below(256);
    h.check = g.check || r.chance(1, 2);
    b->master_table_number = h.mtn; b->edition_number = h.ed; b->master_table_version_number = h.mtv;
    b->data_category = h.cat; b->data_subcategory = h.subcat; b->has_check_digit = h.check;
    std::string what = fmt("CREX master table %u edition %u version %u category %u:%u check digits %d descriptors", h.mtn, h.ed, h.mtv, h.cat, h.subcat, h.check) + cmp::dds(h.dd);
    c.note(what); c.distinct(vf::fnv(what));
    bool fits = h.mtn < 100 && h.ed < 100 && h.mtv < 100, thrown = false;
    std::string enc, err;
    try { enc = b->encode(); } catch (wreport::error& e) { thrown = true; err = e.what(); }
    c.check(thrown == !fits, fits ? "crex-header-refused" : "crex-header-unfitting", (fits ? err : enc.substr(0, 60)) + ": " + what);
    if (!fits) { c.count("crex-refused"); return; }
    std::string want = ref::crex_layout(h, true, nullptr, h.tokens);
    std::string head = want.substr(0, want.find("++", 7) + 2);
    c.check(enc.compare(0, head.size(), head) == 0, "crex-header-text", vf::jstr(enc.substr(0, head.size() + 10)) + " instead of " + vf::jstr(head) + ": " + what);
    c.check(enc == want + "\r\r\n" || enc == want, "crex-text", vf::jstr(enc.substr(0, 400)) + " instead of " + vf::jstr(want.substr(0, 400)) + ": " + what);
    c.count("crex-encoded");
    std::string tables, orig;
    try { Tables t; t.load_crex(CrexTableID(h.ed, 0, 0, h.mtn, h.mtv, 0, 0)); tables = t.btable->path().string() + t.dtable->path().string(); } catch (wreport::error&) {}
    orig = b->tables.btable->path().string() + b->tables.dtable->path().string();
    for (unsigned k = 0; k < 2; ++k)
    {
        std::string m = k ? ref::crex_layout(h, false, &r, h.tokens) : enc;
        if (k && h.subcat == 255 && r.chance(1, 2)) // an unspecified subcategory can also be written in full
        {
            size_t p = m.find('A', 7);
            if (p != std::string::npos && p + 4 < m.size() && isspace((unsigned char)m[p + 4])) { m.insert(p + 4, "255"); c.count("crex-explicit-255"); }
        }
        std::string w = what + " " + vf::jstr(m.substr(0, 300));
        auto cmp_header = [&](const CrexBulletin& d) {
            c.check(d.master_table_number == h.mtn && d.edition_number == h.ed && d.master_table_version_number == h.mtv && d.master_table_version_number_bufr == 0, "crex-header:tables", fmt("master table %u edition %u version %u (BUFR %u): ", d.master_table_number, d.edition_number, d.master_table_version_number, d.master_table_version_number_bufr) + w);
            c.check(d.data_category == h.cat && d.data_subcategory == h.subcat, "crex-header:category", fmt("category %u:%u: ", d.data_category, d.data_subcategory) + w);
            c.check(d.has_check_digit == h.check, "crex-header:check-digit", w);
            // Replication factors are implicit in what is encoded
            std::vector<ref::Code> dd;
            if (k) dd = h.dd;
            else
            {
                // read the descriptors back from the text
                size_t p = head.find('A'), e = head.size() - 2;
                for (p = head.find(' ', p); p != std::string::npos && p < e; p = head.find(' ', p + 1))
                    if (head[p + 1] != 'E') { static const std::string f = "BRCD"; dd.push_back(ref::mk(f.find(head[p + 1]), atoi(head.substr(p + 2, 2).c_str()), atoi(head.substr(p + 4, 3).c_str()))); }
            }
            c.check(d.datadesc == std::vector<Varcode>(dd.begin(), dd.end()), "crex-header:datadesc", fmt("%zu descriptors instead of %zu: ", d.datadesc.size(), dd.size()) + w);
        };
        std::unique_ptr<CrexBulletin> d;
        std::string fname = r.chance(1, 2) ? "h" : fmt("dir/some file %u", (unsigned)r.below(100));
        off_t offset = r.chance(1, 2) ? r.below(1000000) : r.chance(1, 2) ? 0 : 6000000000ll;
        auto place = [&] { c.check(d->fname == fname && d->offset == offset, "crex-header:place", d->fname + fmt(":%lld instead of ", (long long)d->offset) + fname + fmt(":%lld: ", (long long)offset) + w); };
        try { d = CrexBulletin::decode_header(cmp::tight(m), fname.c_str(), offset); }
        catch (wreport::error& e) { c.check(tables.empty(), "crex-header-not-decoded", std::string(e.what()) + ": " + w); c.count("crex-no-tables"); continue; }
        c.check(!tables.empty(), "crex-decoded-without-tables", w);
        cmp_header(*d); place();
        c.count("crex-headers-decoded");
        if (tables != orig) continue;
        try { d = CrexBulletin::decode(cmp::tight(m), fname.c_str(), offset); }
        catch (wreport::error& e) { c.failstop("crex-not-decoded", std::string(e.what()) + ": " + w); }
        cmp_header(*d); place();
        c.check(d->subsets.size() == h.expected.size(), "crex-header:subsets", w);
        c.count("crex-decoded");
    }
}

void header_case(vf::Ctx& c)
{
    static struct NullBuf : public std::streambuf { int overflow(int x) override { return x; } } nb; static std::ostream no(&nb);
    notes::Collect collect(no);
    if (c.rng.chance(1, 400)) big_case(c);
    else if (c.rng.chance(1, 200)) huge_case(c);
    else if (c.rng.chance(1, 3)) crex_case(c);
    else bufr_case(c);
}
void header_setup(vf::Ctx& c) { cmp::setup_crex(c); }
vf::Reg r1("header", header_case, header_setup);

}
