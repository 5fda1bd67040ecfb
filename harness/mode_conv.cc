// C09: unit and code table conversions
#include "varpool.h"
#include <wreport/conv.h>
#include <wreport/codetables.h>
#include <algorithm>
#include <climits>
#include <cmath>
using namespace wreport;
using namespace vf;

namespace {

// value in `to` = value in `from` * mul + add, from the definitions of the
// units; tol: how much the documented factors are allowed to be off
struct Pair { const char* from; const char* to; double mul; double add; double tol; };
const double E = 1e-12, A = 3e-5;
const double CAL = 4.1868, G = 9.80665;
const std::vector<Pair> pairs = {
    {"K", "C", 1, -273.15, 1e-7}, {"K", "C/10", 10, -2731.5, 1e-7}, {"C", "C/10", 10, 0, E},
    {"minuti", "S", 60, 0, E}, {"MINUTE", "S", 60, 0, E},
    {"G/M**3", "KG/M**3", 1e-3, 0, E}, {"ug/m**3", "KG/M**3", 1e-9, 0, E}, {"mg/l", "KG/M**3", 1e-3, 0, E},
    {"PA", "KPA", 1e-3, 0, E}, {"M", "MM", 1e3, 0, E}, {"M", "cm", 1e2, 0, E}, {"M", "KM", 1e-3, 0, E},
    {"%", "PERCENT", 1, 0, E}, {"M", "FT", 1 / 0.3048, 0, A},
    {"cal/cm**2", "J/M**2", CAL * 1e4, 0, A}, {"J/M**2", "MJ/M**2", 1e-6, 0, E},
    {"m/s/10", "M/S", 0.1, 0, E}, {"nodi", "M/S", 1852.0 / 3600, 0, A},
    {"PA", "mBar", 0.01, 0, E}, {"PA", "hPa", 0.01, 0, E}, {"PA", "Bar", 1e-5, 0, E}, {"PA", "NBAR", 1e4, 0, E},
    {"hm", "M", 100, 0, E}, {"mm", "M", 1e-3, 0, E}, {"mV", "V", 1e-3, 0, E}, {"1/8", "%", 12.5, 0, E},
    {"mm/10", "KG/M**2", 0.1, 0, E},
    {"GPM", "m**2/s**2", G, 0, 1e-8}, {"GPM", "M**2/S**2", G, 0, 1e-8}, {"MGP", "m**2/s**2", G, 0, 1e-8}, {"MGP", "M**2/S**2", G, 0, 1e-8},
    {"cal/s/cm**2", "W/M**2", CAL * 1e4, 0, A}, {"cal/h/cm**2", "W/M**2", CAL * 1e4 / 3600, 0, A},
    {"Mj/m**2", "J/M**2", 1e6, 0, E}, {"RATIO", "%", 100, 0, E}, {"ms/cm", "S/M", 0.1, 0, E}, {"mS/cm", "S/M", 0.1, 0, E},
    {"A", "YEAR", 1, 0, 0}, {"YEARS", "YEAR", 1, 0, 0}, {"MON", "MONTH", 1, 0, 0}, {"MONTHS", "MONTH", 1, 0, 0},
    {"D", "DAY", 1, 0, 0}, {"DAYS", "DAY", 1, 0, 0}, {"H", "HOUR", 1, 0, 0}, {"HOURS", "HOUR", 1, 0, 0},
    {"MIN", "MINUTE", 1, 0, 0}, {"MINUTES", "MINUTE", 1, 0, 0}, {"SECONDS", "SECOND", 1, 0, 0}, {"SECOND", "S", 1, 0, 0},
    {"sec", "S", 1, 0, 0}, {"G/G", "KG/KG", 1, 0, 0}, {"m**(2/3)/S", "M**(2/3)/S", 1, 0, 0}, {"DEGREE**2", "DEGREE2", 1, 0, 0},
    {"KG/M**2", "KGM-2", 1, 0, 0}, {"KG/M**2", "KG M-2", 1, 0, 0}, {"J/M**2", "JM-2", 1, 0, 0}, {"Bq/L", "BQ L-1", 1, 0, 0},
    {"DOBSON", "DU", 1, 0, 0}, {"LOG(1/M**2)", "LOG (M-2)", 1, 0, 0}, {"DEGREE", "DEG", 1, 0, 0}, {"DEGREE TRUE", "DEG", 1, 0, 0},
    {"DEGREE TRUE", "gsess", 1, 0, 0}, {"m/sec", "M/S", 1, 0, 0}, {"m", "M", 1, 0, 0}, {"mm", "KG/M**2", 1, 0, 0},
    {"degree true", "DEGREE TRUE", 1, 0, 0}, {"GPM", "MGP", 1, 0, 0}, {"W/m**2", "W/M**2", 1, 0, 0}, {"J M-2", "J/M**2", 1, 0, 0},
    {"ppt", "PART PER THOUSAND", 1, 0, 0}, {"NTU", "LM", 1, 0, 0},
};
std::vector<Pair> known;     // both directions
std::vector<std::string> units, foreign;

void setup(Ctx& c)
{
    varpool::setup(c);
    std::set<std::string> u;
    for (auto& p : pairs)
    {
        known.push_back(p);
        known.push_back({p.to, p.from, 1 / p.mul, -p.add / p.mul, p.tol});
        u.insert(p.from); u.insert(p.to);
    }
    units.assign(u.begin(), u.end());
    foreign = {"", "NUMERIC", "CODE TABLE", "FLAG TABLE", "CCITTIA5", "CHARACTER", "k", "c", "KK", "pa", "P", "PAA", "HPA", "meter", "S/", "\xff\xfe", "DEGREE ", "degree", "FOO", "zzz", "~", "M/S**2"};
}

double rnd(Rng& r)
{
    switch (r.below(6))
    {
        case 0: return 0;
        case 1: return (double)r.range(-1000, 1000);
        case 2: return (r.real() - 0.5) * 1e6;
        case 3: return std::pow(10.0, r.range(-30, 30)) * (r.real() + 0.1) * (r.chance(1, 2) ? 1 : -1);
        case 4: return (double)r.range(INT_MIN, INT_MAX);
        default: return (r.real() - 0.5) * 100;
    }
}
bool near(double got, double want, const Pair& p, double val)
{
    double tol = p.tol ? (p.tol + 4e-15) * (std::fabs(val * p.mul) + std::fabs(p.add)) : 0;
    return std::fabs(got - want) <= tol;
}

void one_unit(Ctx& c, const Pair& p)
{
    Rng& r = c.rng;
    double v = rnd(r);
    std::string ctx = fmt("%.17g %s to %s", v, p.from, p.to);
    c.note(ctx);
    double got;
    try { got = convert_units(p.from, p.to, v); }
    catch (error& e) { c.failstop("known-pair-refused", ctx + ": " + e.what()); }
    double want = v * p.mul + p.add;
    c.count("conversions"); c.distinct(fnv(std::string(p.from) + "|" + p.to) ^ fnv(&v, sizeof v));
    c.check(near(got, want, p, v), "wrong-quantity", ctx + fmt(": got %.17g instead of %.17g", got, want));
    double back;
    try { back = convert_units(p.to, p.from, got); } catch (error& e) { c.failstop("inverse-refused", ctx + ": " + e.what()); }
    double tol = p.tol ? (2 * p.tol + 1e-14) * (std::fabs(v) + std::fabs(p.add / p.mul)) : 0;
    c.check(std::fabs(back - v) <= tol, "not-invertible", ctx + fmt(": %.17g, back to %.17g", got, back));
    c.count("inverses");
}

void unknown(Ctx& c)
{
    Rng& r = c.rng;
    auto pick = [&]() -> std::string { return r.chance(1, 3) ? r.pick(foreign) : r.chance(1, 2) ? r.pick(units) : varpool::installed(r).ref.unit; };
    std::string a = pick(), b = pick();
    double v = rnd(r);
    std::string ctx = fmt("%.17g %s to %s", v, a.c_str(), b.c_str());
    c.note(ctx);
    if (a == b)
    {
        double got = convert_units(a.c_str(), b.c_str(), v);
        c.check(got == v, "same-unit-changed", ctx + fmt(": %.17g", got));
        double n = convert_units(a.c_str(), b.c_str(), NAN);
        c.check(std::isnan(n), "same-unit-nan", ctx);
        c.count("same-unit");
        return;
    }
    if ((a == "octants" && b == "DEGREE TRUE") || (b == "octants" && a == "DEGREE TRUE")) return;
    for (auto& p : known) if (a == p.from && b == p.to) { one_unit(c, p); return; }
    // Only units that measure different things: two names of the same
    // quantity may become convertible
    auto generic = [&](const std::string& s) { return std::find(foreign.begin(), foreign.end(), s) != foreign.end(); };
    if (!generic(a) && !generic(b))
    {
        // Physical dimension by elimination: temperature, pressure, angle
        static const std::map<std::string, int> dim = {{"K", 1}, {"C", 1}, {"C/10", 1}, {"PA", 2}, {"KPA", 2}, {"hPa", 2}, {"mBar", 2}, {"Bar", 2}, {"NBAR", 2}, {"DEGREE TRUE", 3}, {"DEG", 3}, {"DEGREE", 3},
            {"M", 4}, {"KM", 4}, {"cm", 4}, {"FT", 4}, {"S", 5}, {"MINUTE", 5}, {"%", 6}, {"V", 7}, {"mV", 7}, {"M/S", 8}, {"nodi", 8}};
        auto ia = dim.find(a), ib = dim.find(b);
        if (ia == dim.end() || ib == dim.end() || ia->second == ib->second) return;
    }
    try { double got = convert_units(a.c_str(), b.c_str(), v); c.failstop("unknown-pair-accepted", ctx + fmt(": %.17g", got)); }
    catch (error_unimplemented&) { c.count("unknown-refused"); }
    catch (error& e) { c.failstop("unknown-pair-error", ctx + ": " + e.what()); }
}

void assign(Ctx& c)
{
    Rng& r = c.rng;
    const Pair& p = r.chance(4, 5) ? known[r.below(known.size())] : Pair{nullptr, nullptr, 1, 0, 0};
    std::string from, to; Pair q = p;
    if (p.from) { from = p.from; to = p.to; } else from = to = r.pick(units);
    _Varinfo a, b;
    int sa = r.range(-2, 6), sb = r.chance(1, 3) ? sa : r.range(-2, 6);
    // Like two elements of a table, or an element in different tables
    Varcode ca = WR_VAR(0, r.range(1, 30), r.range(1, 60)), cb = r.chance(1, 2) ? ca : WR_VAR(0, r.range(1, 30), r.range(1, 60));
    if (r.chance(1, 4)) a.set_crex(ca, "SOURCE", from.c_str(), sa, r.range(4, 10)); else a.set_bufr(ca, "SOURCE", from.c_str(), sa, 9, -100000000, 28);
    if (r.chance(1, 4)) b.set_crex(cb, "DEST", to.c_str(), sb, r.range(4, 10)); else b.set_bufr(cb, "DEST", to.c_str(), sb, 9, -500000000, 30);
    Var src(&a), dst(&b);
    int64_t lim = r.chance(1, 2) ? 1000 : 100000000;
    int iv = (int)r.range(std::max<int64_t>(-lim, a.imin), std::min<int64_t>(lim, a.imax));
    src.seti(iv);
    double phys = varpool::unscaled(iv, sa), want = phys * q.mul + q.add;
    double tol = (q.tol + 1e-14) * (std::fabs(phys * q.mul) + std::fabs(q.add)) + 0.5000001 * varpool::unscaled(1, sb);
    std::string ctx = fmt("%s of %s assigned to %s scale %d", src.format().c_str(), from.c_str(), to.c_str(), sb);
    c.note(ctx);
    bool fits = want + tol < b.dmax && want - tol > b.dmin, out = want - tol > b.dmax || want + tol < b.dmin;
    int how = r.below(3);
    try
    {
        std::unique_ptr<Var> n;
        if (how == 0) dst.setval(src); else if (how == 1) dst.set(src); else n.reset(new Var(&b, src));
        const Var& d = n ? *n : dst;
        c.check(!out, "assign-overflow", ctx + ": " + d.format());
        c.check(d.isset(), "assign-unset", ctx);
        double got = d.enqd();
        c.check(std::fabs(got - want) <= tol, "assign-wrong", ctx + fmt(": %.17g instead of %.17g", got, want));
        c.check(d.info() == &b && src.enqi() == iv, "assign-info", ctx);
        c.count("assigned");
        if (from == to && sa == sb) c.check(d.enqi() == iv, "assign-same-unit", ctx);
    }
    catch (error_domain& e)
    {
        c.check(!fits, "assign-refused", ctx + ": " + e.what());
        if (how < 2) c.check(!dst.isset(), "assign-refused-set", ctx);
        c.count("assign-refused");
    }
}

template<typename T> bool dom(T f) { try { f(); return false; } catch (error_domain&) { return true; } }

void table(Ctx& c, const char* name, int (*fwd)(int), int (*bwd)(int), int lo, int hi, int shift, int slash)
{
    Rng& r = c.rng;
    for (int code = slash ? -300 : 0; code <= 300; ++code)
    {
        bool shared = code >= lo && code <= hi;
        int want = code + shift;
        if (slash && code == -1) { shared = true; want = slash; }
        c.count("codes");
        if (shared)
        {
            int got = fwd(code);
            c.check(got == want, std::string("code:") + name, fmt("%s: %d converted to %d instead of %d", name, code, got, want));
            c.check(bwd(got) == code, std::string("code-inverse:") + name, fmt("%s: %d back from %d", name, bwd(got), got));
        } else {
            c.check(dom([&]{ fwd(code); }), std::string("code-accepted:") + name, fmt("%s: %d", name, code));
        }
        // The other way round
        int bcode = code;
        bool bshared = (bcode >= lo + shift && bcode <= hi + shift) || (slash && bcode == slash);
        if (bshared) { int got = bwd(bcode); c.check(fwd(got) == bcode, std::string("code-back:") + name, fmt("%s: %d -> %d", name, bcode, got)); }
        else if (slash || bcode >= 0) c.check(dom([&]{ bwd(bcode); }), std::string("code-back-accepted:") + name, fmt("%s: %d", name, bcode));
    }
    int big = r.chance(1, 2) ? INT_MAX : (int)r.range(301, INT_MAX);
    c.check(dom([&]{ fwd(big); }) && dom([&]{ bwd(big); }), std::string("code-big:") + name, fmt("%s: %d", name, big));
}

void codes(Ctx& c)
{
    Rng& r = c.rng;
    switch (r.below(10))
    {
        case 0: table(c, "0500", convert_WMO0500_to_BUFR20012, convert_BUFR20012_to_WMO0500, 0, 9, 0, 59); break;
        case 1: table(c, "0509", convert_WMO0509_to_BUFR20012, convert_BUFR20012_to_WMO0509, 0, 9, 10, 60); break;
        case 2: table(c, "0515", convert_WMO0515_to_BUFR20012, convert_BUFR20012_to_WMO0515, 0, 9, 20, 61); break;
        case 3: table(c, "0513", convert_WMO0513_to_BUFR20012, convert_BUFR20012_to_WMO0513, 0, 9, 30, 62); break;
        case 4: table(c, "4677", convert_WMO4677_to_BUFR20003, convert_BUFR20003_to_WMO4677, 0, 99, 0, 0); break;
        case 5: table(c, "4561", convert_WMO4561_to_BUFR20004, convert_BUFR20004_to_WMO4561, 0, 9, 0, 0); break;
        case 6: // 08001 and 08042: flag tables, bit by bit, all values
        {
            static const unsigned m[][2] = {{0x40, 0x20000}, {0x20, 0x10000}, {0x10, 0x8000}, {0x08, 0x4000}, {0x04, 0x3000}, {0x02, 0x800}};
            for (unsigned v = 0; v < 128; ++v)
            {
                unsigned want = 0;
                for (auto& x : m) if (v & x[0]) want |= x[1];
                if (v & 1) want = 0x3ffff;
                unsigned got = convert_BUFR08001_to_BUFR08042(v);
                c.count("codes");
                c.check(got == want, "08001", fmt("08001 %x -> %x instead of %x", v, got, want));
                unsigned back = convert_BUFR08042_to_BUFR08001(got);
                c.check(back == (v & 1 ? 0x7fu : v), "08001-inverse", fmt("08001 %x -> %x -> %x", v, got, back));
            }
            for (unsigned n = 0; n < 3000; ++n)
            {
                unsigned v = r.below(0x40000), want = 0;
                for (auto& x : m) if (v & x[1]) want |= x[0];
                if (v & 1) want = 0x7f;
                c.check(convert_BUFR08042_to_BUFR08001(v) == want, "08042", fmt("08042 %x -> %x instead of %x", v, convert_BUFR08042_to_BUFR08001(v), want));
            }
            break;
        }
        case 7: // AOF
            for (unsigned v = 0; v < 512; ++v)
            {
                static const unsigned m[9] = {0x4000, 0x8000, 0, 0x10000, 0, 0x10000, 0x20000, 0x800, 0x2000};
                unsigned want = 0; for (unsigned i = 0; i < 9; ++i) if (v & (1 << i)) want |= m[i];
                c.count("codes");
                c.check(convert_AOFVSS_to_BUFR08042(v) == want, "aofvss", fmt("%x -> %x instead of %x", v, convert_AOFVSS_to_BUFR08042(v), want));
            }
            break;
        case 8: // Octants
        {
            for (int o = -20; o <= 40; ++o)
            {
                bool ok = o >= 0 && o <= 8;
                c.count("codes");
                if (ok)
                {
                    double d = convert_octants_to_degrees(o);
                    c.check(d == o * 45.0, "octants", fmt("%d -> %f", o, d));
                    c.check(convert_degrees_to_octants(d) == o, "octants-inverse", fmt("%d -> %f -> %d", o, d, convert_degrees_to_octants(d)));
                    c.check(convert_units("octants", "DEGREE TRUE", o) == d && convert_units("DEGREE TRUE", "octants", d) == o, "octants-units", fmt("%d", o));
                } else
                    c.check(dom([&]{ convert_octants_to_degrees(o); }) && dom([&]{ convert_units("octants", "DEGREE TRUE", o); }), "octants-accepted", fmt("%d", o));
            }
            for (int n = 0; n < 300; ++n)
            {
                double d = r.chance(1, 3) ? r.range(0, 720) * 0.5 : r.real() * 360;
                int got = convert_degrees_to_octants(d), uni = (int)convert_units("DEGREE TRUE", "octants", d);
                bool ok = d == 0 ? got == 0 : got >= 1 && got <= 8 && (std::fabs(got * 45.0 - d) <= 22.5 || (got == 8 && d <= 22.5));
                c.check(ok && uni == got, "degrees", fmt("%.17g -> %d / %d", d, got, uni));
            }
            // Each octant includes its upper bound
            for (int o = 0; o < 8; ++o)
            {
                double d = 22.5 + 45 * o; int low = o ? o : 8, up = o + 1;
                int a = convert_degrees_to_octants(d), b = convert_degrees_to_octants(std::nextafter(d, 1000.0)), e = convert_degrees_to_octants(std::nextafter(d, 0.0));
                c.check(a == low && b == up && e == low && (int)convert_units("DEGREE TRUE", "octants", d) == low, "degrees-bound", fmt("%g -> %d, just above %d, just below %d", d, a, b, e));
            }
            double bad = r.chance(1, 4) ? NAN : r.chance(1, 3) ? 360 + 1e-9 + r.real() * 1e10 : r.chance(1, 2) ? -1e-9 - r.real() * 1e10 : INFINITY;
            c.check(dom([&]{ convert_degrees_to_octants(bad); }) && dom([&]{ convert_units("DEGREE TRUE", "octants", bad); }), "degrees-accepted", fmt("%g", bad));
            double ob = r.chance(1, 4) ? NAN : r.chance(1, 2) ? 9 + r.real() * 1e18 : -1 - r.real() * 1e18;
            c.check(dom([&]{ convert_units("octants", "DEGREE TRUE", ob); }), "octants-accepted", fmt("%g", ob));
            break;
        }
        default: // ICAO heights: standard atmosphere
        {
            double h = r.real() * 20000 - 500;
            double want = h <= 11000 ? 1013.25 * std::pow(1 - 0.0065 * h / 288.15, 5.25588) : 226.32 * std::exp(-9.80665 * 0.0289644 * (h - 11000) / (8.31446 * 216.65));
            double got = convert_icao_to_press(h);
            c.count("icao");
            c.check(std::fabs(got - want) <= want * 3e-3, "icao", fmt("%f m -> %f hPa instead of about %f", h, got, want));
            double h2 = h + 10 + r.real() * 1000;
            c.check(convert_icao_to_press(h2) < got, "icao-monotone", fmt("%f %f", h, h2));
            c.check(std::fabs(convert_icao_to_press(11000) - convert_icao_to_press(11000.001)) < 0.1, "icao-continuous", "");
        }
    }
}

void mode_conv(Ctx& c)
{
    Rng& r = c.rng;
    // Every known pair is converted in the first cases of any run
    const Pair& p = known[c.case_no % known.size()];
    for (int i = 0; i < 6; ++i) one_unit(c, p);
    for (int i = 0; i < 4; ++i) unknown(c);
    for (int i = 0; i < 4; ++i) assign(c);
    if (r.chance(1, 30)) codes(c);
}
Reg reg("conv", mode_conv, setup);
}
