#include "cmp.h"
using namespace wreport;
namespace cmp {

std::string tight(const std::string& m) { std::string s; if (m.size() < 16) return m; s.reserve(m.size()); s = m; s.shrink_to_fit(); return s; }
std::string dds(const std::vector<ref::Code>& dd) { std::string s; for (auto c : dd) s += " " + ref::fxy(c); return s; }

static Vartype vtype(ref::Kind k)
{
    switch (k) { case ref::STR: return Vartype::String; case ref::BIN: return Vartype::Binary; case ref::DEC: return Vartype::Decimal; default: return Vartype::Integer; }
}

std::string info(const _Varinfo& i, const ref::BInfo& r, bool bufr)
{
    if (i.code != r.code) return vf::fmt("code is %s instead of %s", ref::fxy(i.code).c_str(), ref::fxy(r.code).c_str());
    std::string c = ref::fxy(r.code);
    if (i.type != vtype(r.kind)) return vf::fmt("%s: type is %s instead of %s", c.c_str(), vartype_format(i.type), ref::kind_name(r.kind));
    if (i.scale != r.scale && r.kind != ref::BIN) return vf::fmt("%s: scale is %d instead of %d", c.c_str(), i.scale, r.scale);
    if (bufr)
    {
        if (i.bit_len != r.bit_len) return vf::fmt("%s: width is %u instead of %u", c.c_str(), i.bit_len, r.bit_len);
        if (i.bit_ref != r.bit_ref && r.kind != ref::BIN) return vf::fmt("%s: reference is %d instead of %lld", c.c_str(), i.bit_ref, (long long)r.bit_ref);
    }
    if (i.len != r.len) return vf::fmt("%s: length is %u instead of %u", c.c_str(), i.len, r.len);
    return "";
}

std::string show(const Var& v)
{
    std::string s = vf::fmt("%s(scale %d ref %d bits %u len %u)", ref::fxy(v.code()).c_str(), v.info()->scale, v.info()->bit_ref, v.info()->bit_len, v.info()->len);
    s += " = ";
    s += v.isset() ? vf::jstr(v.enqs()) : "(unset)";
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) s += vf::fmt(" {%s=%s}", ref::fxy(a->code()).c_str(), a->isset() ? vf::jstr(a->enqs()).c_str() : "(unset)");
    return s;
}

static std::string value(const Var& v, const ref::RVar& r)
{
    std::string c = ref::fxy(r.info.code);
    if (v.isset() != r.isset) return vf::fmt("%s: is %s instead of %s", c.c_str(), v.isset() ? "set" : "unset", r.isset ? "set" : "unset");
    if (!r.isset) return "";
    switch (r.info.kind)
    {
        case ref::STR:
            if (v.enqs() != r.s) return vf::fmt("%s: value is %s instead of %s", c.c_str(), vf::jstr(v.enqs()).c_str(), vf::jstr(r.s).c_str());
            if (r.s.find('\0') == std::string::npos && std::string(v.enqc()) != r.s) return vf::fmt("%s: enqc gives %s instead of %s", c.c_str(), vf::jstr(v.enqc()).c_str(), vf::jstr(r.s).c_str());
            break;
        case ref::BIN:
            if (std::string(v.enqc(), (r.info.bit_len + 7) / 8) != r.s) return vf::fmt("%s: binary value is %s instead of %s", c.c_str(), vf::hex(std::string(v.enqc(), (r.info.bit_len + 7) / 8)).c_str(), vf::hex(r.s).c_str());
            break;
        default:
            if (v.enqi() != r.i) return vf::fmt("%s: value is %d instead of %lld", c.c_str(), v.enqi(), (long long)r.i);
    }
    return "";
}

std::string var(const Var& v, const ref::RVar& r, bool bufr)
{
    if (!v.info()) return "no varinfo";
    std::string e = info(*v.info(), r.info, bufr);
    if (e.empty()) e = value(v, r);
    if (!e.empty()) return e;
    const Var* a = v.next_attr();
    for (auto& ra : r.attrs)
    {
        if (!a) return vf::fmt("%s: attribute %s is not there", ref::fxy(r.info.code).c_str(), ref::fxy(ra.info.code).c_str());
        e = info(*a->info(), ra.info, bufr);
        if (e.empty()) e = value(*a, ra);
        if (!e.empty()) return vf::fmt("attribute of %s: ", ref::fxy(r.info.code).c_str()) + e;
        a = a->next_attr();
    }
    if (a) return vf::fmt("%s: unexpected attribute %s", ref::fxy(r.info.code).c_str(), ref::fxy(a->code()).c_str());
    return "";
}

std::string subset(const Subset& s, const ref::RSubset& r, bool bufr)
{
    for (size_t i = 0; i < s.size() && i < r.size(); ++i)
    {
        std::string e = var(s[i], r[i], bufr);
        if (!e.empty()) return vf::fmt("variable %zu: ", i) + e;
    }
    if (s.size() != r.size()) return vf::fmt("%zu variables instead of %zu", s.size(), r.size());
    return "";
}

Var make(const Tables& t, const ref::RVar& r)
{
    Varinfo i;
    if (ref::F(r.info.code) == 2)
        i = ref::X(r.info.code) == 5 ? t.get_chardata(r.info.code, r.info.len) : t.get_bitmap(r.info.code, r.s);
    else if (r.info.kind == ref::BIN && !t.btable->contains(r.info.code)) i = t.get_unknown(r.info.code, r.info.bit_len);
    else if (r.info.kind == ref::BIN && t.btable->query(r.info.code)->type != Vartype::Binary) i = t.get_unknown(r.info.code, r.info.bit_len);
    else i = t.btable->query_altered(r.info.code, r.info.scale, r.info.bit_len, r.info.bit_ref);
    Var v(i);
    if (r.isset)
        switch (r.info.kind)
        {
            case ref::STR: case ref::BIN: v.sets(r.s); break;
            default: v.seti(r.i);
        }
    for (auto& a : r.attrs) v.seta(make(t, a));
    return v;
}

std::unique_ptr<BufrBulletin> build(const ref::GenMsg& g)
{
    auto b = BufrBulletin::create();
    b->edition_number = g.h.edition;
    b->master_table_number = g.h.mtn;
    b->master_table_version_number = g.h.mtv;
    b->master_table_version_number_local = g.h.mtvl;
    b->originating_centre = g.h.centre;
    b->originating_subcentre = g.h.subcentre;
    b->update_sequence_number = g.h.usn;
    b->data_category = g.h.cat; b->data_subcategory = g.h.subcat; b->data_subcategory_local = g.h.lsubcat;
    b->rep_year = g.h.year; b->rep_month = g.h.month; b->rep_day = g.h.day; b->rep_hour = g.h.hour; b->rep_minute = g.h.minute; b->rep_second = g.h.second;
    b->optional_section = g.h.opt;
    b->datadesc.assign(g.dd.begin(), g.dd.end());
    b->load_tables();
    for (unsigned i = 0; i < g.subsets; ++i)
    {
        Subset& s = b->obtain_subset(i);
        for (auto& r : g.expected[i]) s.store_variable(make(b->tables, r));
    }
    return b;
}

std::string dump(const Var& v)
{
    std::string s = vf::fmt("%04x/%u/%d/%d/%u/%u=", v.code(), (unsigned)v.info()->type, v.info()->scale, v.info()->bit_ref, v.info()->bit_len, v.info()->len);
    if (!v.isset()) s += "(unset)";
    else if (v.info()->type == Vartype::Binary) s += vf::hex(std::string(v.enqc(), v.info()->len));
    else s += v.enqs();
    for (const Var* a = v.next_attr(); a; a = a->next_attr())
        s += vf::fmt("{%04x/%d/%u=%s}", a->code(), a->info()->scale, a->info()->bit_len, a->isset() ? a->enqs().c_str() : "(unset)");
    return s;
}

std::string dump(const Bulletin& b)
{
    std::string s = vf::fmt("%s mt%u cat%u/%u/%u ce%u/%u usn%u %u-%u-%u %u:%u:%u ", b.encoding_name(), b.master_table_number, b.data_category, b.data_subcategory,
        b.data_subcategory_local, b.originating_centre, b.originating_subcentre, b.update_sequence_number, b.rep_year, b.rep_month, b.rep_day, b.rep_hour, b.rep_minute, b.rep_second);
    if (const BufrBulletin* x = dynamic_cast<const BufrBulletin*>(&b))
    {
        s += vf::fmt("ed%u mtv%u/%u comp%d opt%s ", x->edition_number, x->master_table_version_number, x->master_table_version_number_local, x->compression, vf::hex(x->optional_section).c_str());
        for (unsigned i = 0; i < 6; ++i) s += vf::fmt("%u,", x->section_end[i]);
    }
    if (const CrexBulletin* x = dynamic_cast<const CrexBulletin*>(&b))
        s += vf::fmt("ed%u mtv%u/%u/%u check%d ", x->edition_number, x->master_table_version_number, x->master_table_version_number_bufr, x->master_table_version_number_local, x->has_check_digit);
    for (auto c : b.datadesc) s += vf::fmt(" %04x", c);
    s += vf::fmt("\n%s\n%s\n", b.tables.btable ? b.tables.btable->path().c_str() : "-", b.tables.dtable ? b.tables.dtable->path().c_str() : "-");
    for (auto& sub : b.subsets)
    {
        s += "subset\n";
        for (auto& v : sub) { s += dump(v); s += "\n"; }
    }
    return s;
}

unsigned disguise(vf::Rng& r, wreport::Subset& s, const ref::RSubset& e, bool bufr)
{
    unsigned done = 0;
    for (unsigned n = r.range(1, 6); n && !e.empty(); --n)
    {
        unsigned p = r.below(e.size());
        if (p >= s.size()) continue;
        const ref::RVar& v = e[p];
        const ref::BInfo& i = v.info;
        if (ref::F(i.code) != 0 || ref::X(i.code) == 31 || !v.isset || i.table_kind() || s[p].code() != i.code) continue;
        Varinfo orig = s[p].info();
        static std::map<std::tuple<unsigned, int, unsigned, bool>, _Varinfo> others;
        std::unique_ptr<Var> nv;
        if (i.kind == ref::STR)
        {
            if (!bufr && (v.s.empty() || v.s.find('\0') != std::string::npos)) continue;
            // Longer, with a value that fits or that is cut at the same place
            unsigned len = bufr ? i.bit_len / 8 : i.len, nlen = len + r.range(1, 9);
            auto k = others.emplace(std::make_tuple((unsigned)i.code, 0, nlen, bufr), *orig);
            if (k.second)
            {
                if (bufr) k.first->second.set_bufr(i.code, "other", orig->unit, 0, nlen, 0, nlen * 8);
                else k.first->second.set_crex(i.code, "other", orig->unit, 0, nlen);
                k.first->second.type = Vartype::String;
            }
            std::string val = v.s;
            if (val.size() > len || val.find('\0') != std::string::npos) continue;
            if (r.chance(1, 2)) { val.resize(len, ' '); val += std::string(1 + r.below(nlen - len), 'x'); }
            nv.reset(new Var(&k.first->second, val));
        } else if (i.kind == ref::INT || i.kind == ref::DEC) {
            int step = r.chance(1, 2) ? 1 : r.chance(1, 2) ? -1 : 0;
            int64_t val = v.i;
            if (step == 1) val *= 10;
            else if (step == -1) { if (val % 10) continue; val /= 10; }
            int scale = i.scale + step;
            if (val > 1000000000 || val < -1000000000 || scale > 15 || scale < -15) continue;
            auto k = others.emplace(std::make_tuple((unsigned)i.code, scale, 0, bufr), *orig);
            if (k.second)
            {
                if (bufr) k.first->second.set_bufr(i.code, "other", orig->unit, scale, 10, INT32_MIN / 2, 31);
                else k.first->second.set_crex(i.code, "other", orig->unit, scale, 10);
                k.first->second.type = scale ? Vartype::Decimal : Vartype::Integer;
                k.first->second.imin = INT32_MIN; k.first->second.imax = INT32_MAX; k.first->second.dmin = -1e30; k.first->second.dmax = 1e30;
            }
            nv.reset(new Var(&k.first->second));
            // The value as an integer is the unscaled one
            nv->seti((int)val);
        } else
            continue;
        for (const Var* a = s[p].next_attr(); a; a = a->next_attr()) { Var c(a->info()); if (a->isset()) c.setval(*a); nv->seta(c); }
        s[p] = std::move(*nv);
        ++done;
    }
    return done;
}

}
