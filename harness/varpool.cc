#include "varpool.h"
#include <wreport/vartable.h>
#include <climits>
#include <cmath>
using namespace wreport;
namespace varpool {

struct Tab { const Vartable* lib; const ref::TableFile* ref; bool bufr; };
static std::vector<Tab> tabs;
static std::vector<std::pair<unsigned, unsigned>> by_kind[4];

void setup(vf::Ctx&)
{
    if (!tabs.empty()) return;
    for (auto& p : ref::table_files('B'))
    {
        size_t sl = p.rfind('/');
        bool crex = p.size() - sl - 1 == 11;      // Bttaavv.txt
        const ref::TableFile& f = crex ? ref::load_crex_b(p) : ref::load_bufr_b(p);
        if (!f.ok) continue;
        Tab t{crex ? Vartable::load_crex(p.c_str()) : Vartable::load_bufr(p.c_str()), &f, !crex};
        tabs.push_back(t);
        for (unsigned i = 0; i < f.order.size(); ++i) by_kind[f.order[i].kind].push_back({(unsigned)tabs.size() - 1, i});
    }
    if (tabs.size() < 3) throw std::runtime_error("too few tables");
}
bool empty_domain(const ref::BInfo& i) { return (i.kind == ref::INT || i.kind == ref::DEC) && i.imin() > i.imax(); }

static Entry entry(vf::Rng& r, const Tab& t, const ref::BInfo& b)
{
    Entry e{t.lib->query(b.code), b};
    if (!t.bufr || !r.chance(1, 3) || b.kind == ref::BIN) return e;
    for (int tries = 0; tries < 20; ++tries)
    {
        int scale = b.scale, bits = b.bit_len; int64_t br = b.bit_ref;
        if (b.kind == ref::STR) bits = 8 * r.range(1, 40);
        else
        {
            if (b.table_kind() || !b.bit_len) return e;
            if (r.chance(1, 2)) scale = std::max<int64_t>(-16, std::min<int64_t>(16, b.scale + r.range(-9, 9)));
            if (r.chance(1, 8)) scale = r.range(-16, 16);
            if (r.chance(1, 2)) bits = std::max<int64_t>(1, std::min<int64_t>(32, b.bit_len + r.range(-8, 8)));
            if (r.chance(1, 3)) br = r.chance(1, 2) ? r.range(-100000, 100000) : r.range(-2000000000, 2000000000);
        }
        try {
            ref::BInfo a = ref::altered(b, scale, bits, br);
            return Entry{t.lib->query_altered(b.code, scale, bits, (int)br), a};
        } catch (ref::Unsup&) {}
    }
    return e;
}
Entry installed(vf::Rng& r)
{
    // Strings are few
    if (r.chance(1, 6)) return installed_kind(r, ref::STR);
    const Tab& t = tabs[r.below(tabs.size())];
    return entry(r, t, t.ref->order[r.below(t.ref->order.size())]);
}
Entry installed_kind(vf::Rng& r, ref::Kind k)
{
    if (by_kind[k].empty()) throw std::runtime_error("no entries of that kind");
    auto& p = by_kind[k][r.below(by_kind[k].size())];
    return entry(r, tabs[p.first], tabs[p.first].ref->order[p.second]);
}
Entry Synth::make(vf::Rng& r, int kind)
{
    static const char* units[] = {"K", "M", "NUMERIC", "CODE TABLE", "FLAG TABLE", "M/S", "PA", "DEGREE TRUE"};
    if (kind < 0) kind = r.below(4);
    ref::BInfo b;
    store.emplace_back();
    _Varinfo& v = store.back();
    b.code = ref::mk(0, r.chance(1, 12) ? 31 : r.range(1, 40), r.range(1, 255));
    b.desc = "SYNTHETIC";
    switch (kind)
    {
        case ref::STR:
            b.kind = ref::STR; b.unit = "CCITTIA5"; b.len = r.chance(1, 8) ? r.range(33, 300) : r.range(1, 32); b.bit_len = b.len * 8;
            v.set_string(b.code, b.desc.c_str(), b.len);
            break;
        case ref::BIN:
            b.kind = ref::BIN; b.unit = "UNKNOWN"; b.bit_len = r.chance(1, 8) ? r.range(65, 600) : r.range(1, 64); b.len = (b.bit_len + 7) / 8;
            v.set_binary(b.code, b.desc.c_str(), b.bit_len);
            break;
        default:
            do {
                b.unit = units[r.below(sizeof(units) / sizeof(*units))];
                b.scale = kind == ref::DEC ? (r.chance(1, 2) ? r.range(1, 16) : r.range(-16, -1)) : 0;
                b.kind = b.scale ? ref::DEC : ref::INT;
                if (r.chance(1, 4))
                {
                    b.len = r.range(1, 10); b.bit_len = 0; b.bit_ref = 0;
                    v.set_crex(b.code, b.desc.c_str(), b.unit.c_str(), b.scale, b.len);
                } else {
                    b.bit_len = r.range(1, 32); b.len = std::ceil(b.bit_len * std::log10(2.0));
                    if (r.chance(1, 3)) b.len = r.range(1, 10);
                    b.bit_ref = r.chance(1, 2) ? 0 : r.chance(1, 2) ? r.range(-100000, 100000) : r.range(-1000000000, 1000000000);
                    v.set_bufr(b.code, b.desc.c_str(), b.unit.c_str(), b.scale, b.len, b.bit_ref, b.bit_len);
                }
            } while (empty_domain(b));
    }
    return Entry{&v, b};
}
Entry any(vf::Rng& r, Synth& s)
{
    while (true)
    {
        Entry e = r.chance(2, 3) ? installed(r) : s.make(r);
        if (!empty_domain(e.ref) && e.ref.len) return e;
    }
}

static __float128 p10(int n) { __float128 x = 1; while (n-- > 0) x *= 10; return x; }
__float128 scaled(double x, int scale) { return scale >= 0 ? (__float128)x * p10(scale) : (__float128)x / p10(-scale); }
double unscaled(int64_t i, int scale)
{
    // Both operands are exact up to 10^22, so the operation rounds once
    double p = (double)p10(std::abs(scale));
    return scale >= 0 ? (double)i / p : (double)i * p;
}
std::string text(int64_t i, int scale)
{
    if (scale <= 0)
    {
        // Exact decimal expansion of the nearest double
        double d = unscaled(i, scale);
        unsigned __int128 m = (unsigned __int128)std::fabs(d);
        std::string s; do { s.insert(s.begin(), (char)('0' + (int)(m % 10))); m /= 10; } while (m);
        return i < 0 ? "-" + s : s;
    }
    uint64_t m = i < 0 ? -(uint64_t)i : i;
    std::string s = std::to_string(m);
    if ((int)s.size() <= scale) s.insert(0, scale + 1 - s.size(), '0');
    s.insert(s.size() - scale, ".");
    return i < 0 ? "-" + s : s;
}

}
