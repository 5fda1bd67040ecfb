// C06: domain of variables, C08: numbers
#include "varpool.h"
#include <wreport/options.h>
#include <wreport/conv.h>
#include <algorithm>
#include <climits>
#include <cmath>
using namespace wreport;
using namespace vf;
using varpool::Entry;

namespace {

struct State { bool isset = false; int64_t i = 0; std::string s; };
struct AttrState { Varcode code; bool isset; std::string val; };

std::vector<AttrState> attrs_of(const Var& v)
{
    std::vector<AttrState> r;
    for (const Var* a = v.next_attr(); a; a = a->next_attr()) r.push_back({a->code(), a->isset(), a->isset() ? a->enqs() : ""});
    return r;
}
bool operator==(const AttrState& a, const AttrState& b) { return a.code == b.code && a.isset == b.isset && a.val == b.val; }

bool numeric(const ref::BInfo& b) { return b.kind == ref::INT || b.kind == ref::DEC; }

std::string esc(const std::string& s) { return jstr(s); }
std::string show(const State& s, const ref::BInfo& b)
{
    if (!s.isset) return "(unset)";
    return numeric(b) ? std::to_string(s.i) : esc(s.s);
}

template<typename E, typename FN> bool throws(FN f, std::string& got)
{
    try { f(); got = "no exception"; return false; }
    catch (E&) { return true; }
    catch (std::exception& e) { got = std::string("another exception: ") + e.what(); return false; }
}

// Everything that can be read from a variable agrees with the state
void check_read(Ctx& c, const Var& v, const Entry& e, const State& s, const std::string& what)
{
    std::string got;
    auto bad = [&](const char* key, const std::string& d) { c.failstop(key, what + ": " + d + " for " + e.ref.str() + ", expected " + show(s, e.ref)); };
    c.count("states-read");
    if (v.info() != e.info || v.code() != e.ref.code) bad("read:info", "info changed");
    if (v.isset() != s.isset) bad("read:isset", fmt("isset is %d", v.isset()));
    if (!s.isset)
    {
        c.count("unset-read");
        if (!throws<error_notfound>([&]{ v.enqi(); }, got)) bad("read:unset-enqi", got);
        if (!throws<error_notfound>([&]{ v.enqd(); }, got)) bad("read:unset-enqd", got);
        if (!throws<error_notfound>([&]{ v.enqc(); }, got)) bad("read:unset-enqc", got);
        if (!throws<error_notfound>([&]{ v.enqs(); }, got)) bad("read:unset-enqs", got);
        if (!throws<error_notfound>([&]{ v.enq<int>(); }, got)) bad("read:unset-enq", got);
        if (v.enq<int>(42) != 42 || v.enq<double>(4.5) != 4.5 || v.enq<std::string>("x") != "x") bad("read:unset-default", "default not given");
        if (v.format("undef!") != "undef!" || v.format() != "") bad("read:unset-format", esc(v.format("undef!")));
        return;
    }
    if (numeric(e.ref))
    {
        if (v.enqi() != s.i) bad("read:enqi", fmt("enqi is %d", v.enqi()));
        if (v.enqi() < e.ref.imin() || v.enqi() > e.ref.imax()) bad("read:domain", fmt("%d is not in [%lld,%lld]", v.enqi(), (long long)e.ref.imin(), (long long)e.ref.imax()));
        double d = varpool::unscaled(s.i, e.ref.scale);
        if (v.enqd() != d) bad("read:enqd", fmt("enqd is %.17g instead of %.17g", v.enqd(), d));
        if (v.enq<int>() != s.i || v.enq<double>() != d || v.enq<float>() != (float)d || v.enq<int>(s.i == 3 ? 4 : 3) != s.i || v.enq<double>(0.5) != d) bad("read:enq", "enq<T> disagrees");
        std::string t = std::to_string(s.i);
        if (t != v.enqc() || t != v.enqs() || v.enq<std::string>() != t || v.enq<std::string>("?") != t) bad("read:enqc", esc(v.enqc()) + " " + esc(v.enqs()));
        t = varpool::text(s.i, e.ref.scale);
        if (v.format() != t || v.format("zz") != t) bad("read:format", fmt("formatted as %s instead of %s", esc(v.format()).c_str(), esc(t).c_str()));
    } else {
        if (!throws<error_type>([&]{ v.enqi(); }, got)) bad("read:type-enqi", got);
        if (!throws<error_type>([&]{ v.enqd(); }, got)) bad("read:type-enqd", got);
        if (!throws<error_type>([&]{ v.enq<double>(); }, got)) bad("read:type-enq", got);
        if (v.enqs() != s.s) bad("read:enqs", esc(v.enqs()));
        if (e.ref.kind == ref::STR)
        {
            if (s.s != v.enqc() || v.format() != s.s || v.enqs().size() > e.ref.len) bad("read:enqc", esc(v.enqc()) + " " + esc(v.format()));
        } else {
            std::string h; for (unsigned char x : s.s) h += fmt("%02X", x);
            if (std::string(v.enqc(), e.ref.len) != s.s) bad("read:enqc", hex(std::string(v.enqc(), e.ref.len)));
            if (v.format() != h) bad("read:format", v.format());
        }
    }
}

std::string rnd_str(Rng& r, unsigned n)
{
    static const char* alpha = "ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 abcxyz+-/.";
    std::string s; size_t na = strlen(alpha);
    for (unsigned i = 0; i < n; ++i) s += r.chance(1, 30) ? (char)r.range(128, 255) : alpha[r.below(na)];
    return s;
}
std::string rnd_bytes(Rng& r, unsigned n) { std::string s; for (unsigned i = 0; i < n; ++i) s += (char)(r.chance(1, 6) ? (r.chance(1, 2) ? 0 : 255) : r.below(256)); return s; }
std::string bin_value(const std::string& in, const ref::BInfo& b)
{
    std::string s = in.substr(0, b.len);
    bool full = in.size() >= b.len;
    s.resize(b.len, 0);
    if (full && b.bit_len % 8) s[b.len - 1] &= (1 << (b.bit_len % 8)) - 1;
    return s;
}

int64_t rnd_in(Rng& r, const ref::BInfo& b)
{
    int64_t lo = b.imin(), hi = b.imax();
    auto in = [&](int64_t v) { if (r.chance(1, 3)) v = -v; return std::max(lo, std::min(hi, v)); };
    switch (r.below(7))
    {
        case 5: { int64_t v = 1; for (unsigned n = r.below(10); n; --n) v *= 10; return in(v + r.range(-1, 1)); }
        case 6: { int64_t v = 1; for (unsigned n = r.below(10); n; --n) v *= 10; return in(v * (1 + r.below(9)) - r.below(2)); }
        case 0: return std::min(hi, lo + (int64_t)r.below(3));
        case 1: return std::max(lo, hi - (int64_t)r.below(3));
        case 2: return std::max(lo, std::min(hi, r.range(-20, 20)));
        case 3: return in(((int64_t)1 << r.below(31)) + r.range(-1, 1));
        default: return r.range(lo, hi);
    }
}
int64_t rnd_any32(Rng& r, const ref::BInfo& b)
{
    int64_t v;
    switch (r.below(7))
    {
        case 0: v = b.imin() + r.range(-3, 3); break;
        case 1: v = b.imax() + r.range(-3, 3); break;
        case 2: v = r.chance(1, 2) ? INT_MIN + (int64_t)r.below(2) : INT_MAX - (int64_t)r.below(2); break;
        case 3: v = r.range(-5, 5); break;
        case 4: v = r.range(INT_MIN, INT_MAX); break;
        default: v = rnd_in(r, b);
    }
    return std::max<int64_t>(INT_MIN, std::min<int64_t>(INT_MAX, v));
}
double rnd_double(Rng& r, const ref::BInfo& b)
{
    double u = varpool::unscaled(1, b.scale);
    switch (r.below(12))
    {
        case 0: return NAN;
        case 1: return r.chance(1, 2) ? INFINITY : -INFINITY;
        case 2: { double d = std::pow(10.0, r.range(0, 307)) * (r.real() * 9 + 1); return r.chance(1, 2) ? d : -d; }
        case 3: return (r.real() - 0.5) * 1e-300;
        case 4: { double d = varpool::unscaled(r.chance(1, 2) ? b.imax() : b.imin(), b.scale); int n = r.range(-2, 2); for (int i = 0; i < std::abs(n); ++i) d = std::nextafter(d, n > 0 ? INFINITY : -INFINITY); return d; }
        case 5: return varpool::unscaled(r.chance(1, 2) ? b.imax() : b.imin(), b.scale) + (r.real() * 4 - 2) * u;
        case 6: return varpool::unscaled(rnd_any32(r, b), b.scale);
        case 7: return varpool::unscaled(rnd_in(r, b), b.scale) + (r.real() - 0.5) * u;
        case 8: return varpool::unscaled(rnd_in(r, b), b.scale) + 0.5 * u;
        case 9: return r.chance(1, 2) ? 0.0 : -0.0;
        default: return varpool::unscaled(rnd_in(r, b), b.scale);
    }
}

struct Want
{
    enum K { IN, OUT, EITHER, TYPE, UNSETS, FAIL } k = IN;
    std::vector<int64_t> vals;  // acceptable stored integers
    std::string s;              // stored string or binary
    int64_t limit = 0;          // where it gets clamped
    bool nan = false;
    bool has_int = false; int64_t ival = 0; double dval = 0;
};

Want want_int(const ref::BInfo& b, int64_t v)
{
    Want w; w.ival = v; w.has_int = v >= INT_MIN && v <= INT_MAX; w.dval = (double)v * std::pow(10.0, -b.scale);
    if (v < b.imin()) { w.k = Want::OUT; w.limit = b.imin(); }
    else if (v > b.imax()) { w.k = Want::OUT; w.limit = b.imax(); }
    else w.vals = {v};
    return w;
}
Want want_double(const ref::BInfo& b, double d)
{
    Want w; w.dval = d;
    if (std::isnan(d)) { w.k = Want::OUT; w.nan = true; return w; }
    int64_t lo = b.imin(), hi = b.imax();
    if (d == varpool::unscaled(hi, b.scale)) { w.vals = {hi}; return w; }
    if (d == varpool::unscaled(lo, b.scale)) { w.vals = {lo}; return w; }
    if (std::isinf(d)) { w.k = Want::OUT; w.limit = d > 0 ? hi : lo; return w; }
    __float128 x = varpool::scaled(d, b.scale);
    const double eps = 1e-5;
    if (x < lo) { w.limit = lo; w.vals = {lo}; w.k = x < lo - (0.5 + eps) ? Want::OUT : Want::EITHER; }
    else if (x > hi) { w.limit = hi; w.vals = {hi}; w.k = x > hi + (0.5 + eps) ? Want::OUT : Want::EITHER; }
    else
    {
        int64_t fl = (int64_t)x; if ((__float128)fl > x) --fl;
        double frac = (double)(x - fl);
        if (frac <= 0.5 + eps && fl >= lo) w.vals.push_back(fl);
        if (frac >= 0.5 - eps && fl + 1 <= hi) w.vals.push_back(fl + 1);
    }
    return w;
}

struct Hook : public options::DomainErrorHook
{
    int behaviour = 0; int64_t setto = 0;
    unsigned calls = 0; Var* var = nullptr; bool isint = false; int32_t i = 0; double d = 0;
    void act(Var& v) { ++calls; var = &v; if (behaviour == 1) v.unset(); else if (behaviour == 2) v.seti((int)setto); }
    void handle_domain_error_int(Var& v, int32_t val) override { isint = true; i = val; act(v); }
    void handle_domain_error_double(Var& v, double val) override { isint = false; d = val; act(v); }
};

const char* kindnames[] = {"in-domain", "out-of-domain", "at-the-limit", "wrong-type", "unsets", "fails"};

void set_prev(Ctx& c, Var& v, const Entry& e, State& s)
{
    Rng& r = c.rng;
    if (r.chance(1, 3)) { if (r.chance(1, 3)) { v.unset(); } s = State(); return; }
    s.isset = true;
    if (numeric(e.ref)) { s.i = rnd_in(r, e.ref); v.seti((int)s.i); }
    else if (e.ref.kind == ref::STR) { s.s = rnd_str(r, r.range(0, e.ref.len)); v.setc(s.s.c_str()); }
    else { s.s = bin_value(rnd_bytes(r, e.ref.len), e.ref); v.sets(s.s); }
}

void one(Ctx& c, Var& v, const Entry& e, State& st, varpool::Synth& synth)
{
    Rng& r = c.rng;
    const ref::BInfo& b = e.ref;
    bool silent = r.chance(1, 4), clamp = r.chance(1, 4), hooked = r.chance(1, 4);
    Hook hook; hook.behaviour = r.below(3); if (!numeric(b)) hook.behaviour = r.below(2); else hook.setto = rnd_in(r, b);
    auto before = attrs_of(v);
    Want w; std::string what; std::function<void()> op;
    bool via_ctor = false;      // assignment happens in a constructor
    std::string text; double d = 0; int iv = 0;
    std::unique_ptr<Var> src; std::unique_ptr<Var> built;
    int which = r.below(numeric(b) ? 12 : 10);
    if (numeric(b))
    {
        switch (which)
        {
            case 0: case 1:
                iv = rnd_any32(r, b); w = want_int(b, iv); what = fmt("seti(%d)", iv);
                if (r.chance(1, 4)) op = [&]{ v.set(iv); }; else if (r.chance(1, 4)) { via_ctor = true; op = [&]{ built.reset(new Var(e.info, iv)); }; } else op = [&]{ v.seti(iv); };
                break;
            case 2: case 3: case 4:
                d = rnd_double(r, b); w = want_double(b, d); what = fmt("setd(%.17g)", d);
                if (r.chance(1, 4)) op = [&]{ v.set(d); }; else if (r.chance(1, 4)) { via_ctor = true; op = [&]{ built.reset(new Var(e.info, d)); }; } else op = [&]{ v.setd(d); };
                break;
            case 5: case 6:
            {
                int64_t n = rnd_any32(r, b);
                if (r.chance(1, 6)) n = r.range(-10000000000000000ll, 10000000000000000ll);
                if (r.chance(1, 6)) n = r.chance(1, 2) ? 0x80000000ll + r.range(-2, 2) : -0x80000000ll + r.range(-2, 2);
                if (r.chance(1, 12)) n = r.chance(1, 2) ? (int64_t)r.range(1, 6) * 0x100000000ll + rnd_in(r, b) : -(int64_t)r.range(1, 6) * 0x100000000ll + rnd_in(r, b);
                text = std::to_string(n);
                w = want_int(b, n);
                if (r.chance(1, 12)) { text += std::string(r.range(10, 40), '7'); w = Want(); w.k = Want::OUT; w.limit = n < 0 ? b.imin() : b.imax(); w.dval = n < 0 ? -INFINITY : INFINITY; if (n == 0) { w.k = Want::OUT; } }
                else if (r.chance(1, 12)) text.insert(n < 0 ? 1 : 0, std::string(r.range(1, 30), '0'));
                else if (r.chance(1, 8))
                {
                    static const char* junk[] = {"", "-", "abc", "12a", "1.5", "--3", "3-", " 12", "12 ", "+5", "1e3", "0x10", "////"};
                    text = junk[r.below(sizeof(junk) / sizeof(*junk))]; w = Want(); w.k = Want::UNSETS;
                }
                goto textops;
            }
            case 7: case 8:
            {
                // Formatted text
                if (r.chance(1, 2)) { int64_t n = rnd_any32(r, b); text = varpool::text(n, b.scale); d = varpool::unscaled(n, b.scale); w = want_double(b, strtod(text.c_str(), nullptr)); }
                else { d = rnd_double(r, b); text = fmt("%.17g", d); w = want_double(b, d); }
                if (r.chance(1, 10)) { text.clear(); w = Want(); w.k = Want::UNSETS; }
                what = "setf(" + text + ")";
                if (text.empty() && r.chance(1, 2)) op = [&]{ v.setf(nullptr); }; else op = [&]{ v.setf(text.c_str()); };
                break;
            }
            case 9: text = "1"; w.k = Want::TYPE; what = "setc_truncate"; op = [&]{ v.setc_truncate(text.c_str()); }; break;
            default: goto fromvar;
        }
    } else {
        switch (which)
        {
            case 0: w.k = Want::TYPE; what = "seti"; op = [&]{ v.seti(1); }; break;
            case 1: w.k = Want::TYPE; what = "setd"; op = [&]{ v.setd(1.5); }; break;
            case 2: case 3: case 4: case 5:
            {
                if (b.kind == ref::STR)
                {
                    text = rnd_str(r, r.chance(1, 3) ? b.len : r.chance(1, 2) ? r.range(0, b.len) : r.range(0, b.len * 2 + 3));
                    if (r.chance(1, 5)) { text = text.substr(0, 5); }
                    w.s = text.substr(0, b.len);
                    unsigned k = r.below(4);
                    if (k == 0) { what = "setf(" + esc(text) + ")"; if (text.empty()) w.k = Want::UNSETS; op = [&]{ v.setf(text.c_str()); }; break; }
                    if (k == 1) { what = "setc_truncate(" + esc(text) + ")"; op = [&]{ v.setc_truncate(text.c_str()); }; break; }
                    if (k == 2 && r.chance(1, 4) && text.size() > 2) { text[r.below(text.size())] = 0; w.s = std::string(text.c_str()).substr(0, b.len); what = "sets(" + esc(text) + ")"; op = [&]{ v.sets(text); }; break; }
                    goto textops;
                }
                text = rnd_bytes(r, r.chance(1, 2) ? b.len : r.range(0, b.len + 3));
                unsigned k = r.below(4);
                if (k == 0) { text.resize(b.len, 'x'); w.s = bin_value(text, b); what = "setc(" + hex(text) + ")"; op = [&]{ v.setc(text.data()); }; break; }
                if (k == 1) { text.resize(b.len, 'x'); w.s = bin_value(text, b); what = "setc_truncate(" + hex(text) + ")"; op = [&]{ v.setc_truncate(text.data()); }; break; }
                w.s = bin_value(text, b); what = "sets(" + hex(text) + ")";
                op = [&]{ v.sets(text); };
                break;
            }
            default: goto fromvar;
        }
    }
    if (false)
    {
textops:
        what = "setc(" + esc(text) + ")";
        switch (r.below(5))
        {
            case 0: op = [&]{ v.sets(text); }; what = "sets(" + esc(text) + ")"; break;
            case 1: op = [&]{ v.set(text.c_str()); }; break;
            case 2: op = [&]{ v.set(text); }; break;
            case 3: via_ctor = true; if (r.chance(1, 2)) op = [&]{ built.reset(new Var(e.info, text)); }; else op = [&]{ built.reset(new Var(e.info, text.c_str())); }; break;
            default: op = [&]{ v.setc(text.c_str()); }; break;
        }
    }
    if (false)
    {
fromvar:
        Entry se = varpool::any(r, synth);
        if (numeric(b) && r.chance(1, 2)) { se = e; if (r.chance(1, 2)) { synth.store.emplace_back(*e.info); auto& i = synth.store.back(); i.set_bufr(b.code, "x", e.info->unit, (int)r.range(-5, 8), 9, -100000, 30); se.info = &i; se.ref.scale = i.scale; se.ref.kind = i.scale ? ref::DEC : ref::INT; se.ref.len = 9; se.ref.bit_ref = -100000; se.ref.bit_len = 30; } }
        src.reset(new Var(se.info));
        State ss; set_prev(c, *src, se, ss);
        what = "setval(" + show(ss, se.ref) + " of " + se.ref.str() + ")";
        if (!ss.isset) w.k = Want::UNSETS;
        else if (!numeric(b))
        {
            std::string t = numeric(se.ref) ? std::to_string(ss.i) : ss.s;
            if (b.kind == ref::STR) { t = t.c_str(); w.s = t.substr(0, b.len); if (se.ref.kind == ref::BIN) c.count("binary-to-string"); }
            else w.s = bin_value(t, b);
        }
        else if (!numeric(se.ref)) w.k = Want::FAIL;
        else
        {
            try { w = want_double(b, convert_units(se.info->unit, e.info->unit, varpool::unscaled(ss.i, se.ref.scale))); }
            catch (error&) { w.k = Want::FAIL; }
        }
        if (r.chance(1, 6)) { via_ctor = true; op = [&]{ built.reset(new Var(e.info, *src)); }; } else op = [&]{ v.setval(*src); };
    }
    if (via_ctor) { st = State(); v.unset(); }
    std::string ctxt = what + " on " + b.str() + fmt(" from %s, silent %d clamp %d hook %d", show(st, b).c_str(), silent, clamp, hooked);
    c.note(ctxt);
    enum { OK, DOMAIN, TYPE, OTHER } res = OK; std::string err;
    {
        auto o1 = options::local_override(options::var_silent_domain_errors, silent);
        auto o2 = options::local_override(options::var_clamp_domain_errors, clamp);
        auto o3 = options::local_override<options::DomainErrorHook*>(options::var_hook_domain_errors, hooked ? &hook : nullptr);
        try { op(); }
        catch (error_domain& x) { res = DOMAIN; err = x.what(); }
        catch (error_type& x) { res = TYPE; err = x.what(); }
        catch (error& x) { res = OTHER; err = x.what(); }
    }
    c.check(!options::var_silent_domain_errors && !options::var_clamp_domain_errors && !options::var_hook_domain_errors, "options-not-restored", ctxt);
    Var& tv = built ? *built : v;
    c.count(std::string("assign:") + kindnames[w.k]);
    c.distinct(fnv(what) ^ fnv(b.str()) ^ (silent * 1 + clamp * 2 + hooked * 4) * 0x1234567ull);
    auto bad = [&](const char* key, const std::string& dd) { c.failstop(key, ctxt + ": " + dd + (err.empty() ? "" : " (" + err + ")") + fmt(", domain [%lld,%lld]", (long long)b.imin(), (long long)b.imax()) + ", now " + cmp::show(tv)); };
    auto stored = [&](const std::vector<int64_t>& vals) {
        if (!tv.isset()) bad("assign:not-stored", "the variable is unset");
        if (std::find(vals.begin(), vals.end(), tv.enqi()) == vals.end()) bad("assign:wrong-value", fmt("stored %d instead of %lld", tv.enqi(), (long long)vals[0]));
        st.isset = true; st.i = tv.enqi();
    };
    bool treat_out = w.k == Want::OUT;
    if (w.k == Want::EITHER) treat_out = res != OK || hook.calls || (silent && !tv.isset());
    switch (w.k)
    {
        case Want::IN: case Want::OUT: case Want::EITHER:
            if (!treat_out)
            {
                if (res != OK) bad("assign:refused", "an in-domain value was refused");
                if (hook.calls) bad("assign:hook", "hook called for an in-domain value");
                if (numeric(b)) stored(w.vals); else { st.isset = true; st.s = w.s; }
            } else if (silent) {
                if (res != OK || hook.calls) bad("silent:not-silent", "error or hook with silent domain errors");
                st = State(); c.count("out:silent");
            } else if (clamp && !w.nan) {
                if (res != OK || hook.calls) bad("clamp:error", "error or hook with clamped domain errors");
                stored({w.limit}); c.count("out:clamp");
            } else if (hooked && !(w.nan && clamp && res == DOMAIN)) {
                if (res != OK) bad("hook:error", "error with a domain error hook");
                if (hook.calls != 1) bad("hook:calls", fmt("hook called %u times", hook.calls));
                if (!via_ctor && hook.var != &v) bad("hook:var", "hook called for another variable");
                if (hook.isint)
                {
                    bool ok = w.has_int ? hook.i == w.ival : std::fabs((double)(varpool::scaled(w.dval, b.scale) - hook.i)) <= 0.5 + 1e-5;
                    if (!ok) bad("hook:value", fmt("hook called with %d", hook.i));
                } else {
                    bool ok = w.nan ? std::isnan(hook.d) : std::isinf(w.dval) ? (hook.d > 0) == (w.dval > 0) : std::fabs(hook.d - w.dval) <= std::fabs(w.dval) * 1e-12;
                    if (!ok) bad("hook:value", fmt("hook called with %.17g", hook.d));
                }
                if (hook.behaviour == 1) st = State(); else if (hook.behaviour == 2) { st.isset = true; st.i = hook.setto; }
                c.count("out:hook");
            } else {
                if (res != DOMAIN) bad("throw:missing", "no domain error");
                if (!via_ctor && tv.isset()) bad("throw:set", "the variable is still set");
                st = State(); c.count("out:throw");
                if (via_ctor) return;
            }
            break;
        case Want::TYPE:
            if (res != TYPE) bad("type:missing", "no type error");
            break;
        case Want::UNSETS:
            if (res != OK && res != DOMAIN) bad("unset:error", "unexpected error");
            if (res != OK && via_ctor) return;
            st = State();
            break;
        case Want::FAIL:
            if (res == OK) bad("fail:missing", "no error");
            if (via_ctor) return;
            break;
    }
    check_read(c, tv, e, st, ctxt);
    if (built) v = *built;
    else if (!(attrs_of(v) == before)) bad("attrs-changed", "attributes changed");
}

void mode_domain(Ctx& c)
{
    Rng& r = c.rng;
    varpool::Synth synth;
    Entry e = varpool::any(r, synth);
    c.count(std::string("entry:") + ref::kind_name(e.ref.kind));
    std::string ie = cmp::info(*e.info, e.ref, e.ref.bit_len != 0);
    c.check(ie.empty(), "entry", ie);
    if (numeric(e.ref)) c.check(e.info->imin == e.ref.imin() && e.info->imax == e.ref.imax(), "range", e.ref.str() + fmt(": range is [%d,%d] instead of [%lld,%lld]", e.info->imin, e.info->imax, (long long)e.ref.imin(), (long long)e.ref.imax()));
    Var v(e.info);
    State st;
    check_read(c, v, e, st, "new variable");
    if (r.chance(1, 3))
    {
        Entry a = varpool::any(r, synth); Var av(a.info); State as; set_prev(c, av, a, as); v.seta(av);
    }
    for (unsigned i = 0, n = r.range(1, 6); i < n; ++i)
    {
        if (r.chance(1, 3)) { set_prev(c, v, e, st); if (!st.isset) { v.unset(); } check_read(c, v, e, st, "prepared"); }
        one(c, v, e, st, synth);
    }
}
Reg r1("var_domain", mode_domain, varpool::setup);

// ---- numbers

void mode_numbers(Ctx& c)
{
    Rng& r = c.rng;
    varpool::Synth synth;
    Entry e;
    do { e = r.chance(2, 3) ? varpool::installed_kind(r, r.chance(1, 2) ? ref::DEC : ref::INT) : synth.make(r, r.chance(3, 4) ? ref::DEC : ref::INT); } while (varpool::empty_domain(e.ref));
    const ref::BInfo& b = e.ref;
    const _Varinfo& vi = *e.info;
    double u = varpool::unscaled(1, b.scale);
    c.count(fmt("scale:%d", b.scale));
    for (int n = 0; n < 12; ++n)
    {
        int64_t i = rnd_in(r, b);
        std::string ctx = fmt("%lld of %s", (long long)i, b.str().c_str());
        c.note(ctx);
        c.distinct(fnv(ctx));
        c.count("numbers");
        double d = varpool::unscaled(i, b.scale);
        std::string txt = varpool::text(i, b.scale);
        State st; st.isset = true; st.i = i;
        Var v(e.info, (int)i);
        check_read(c, v, e, st, "seti");
        auto again = [&](const char* how, std::function<void(Var&)> fn) {
            Var o(e.info);
            if (r.chance(1, 2)) o.seti((int)rnd_in(r, b));
            try { fn(o); } catch (error& x) { c.failstop(std::string("roundtrip-error:") + how, ctx + ": " + x.what()); }
            check_read(c, o, e, st, std::string("back from ") + how);
            c.check(o == v && v == o && v.value_equals(o), std::string("roundtrip-differs:") + how, ctx);
            c.count("roundtrips");
        };
        again("enqd", [&](Var& o) { o.setd(v.enqd()); });
        again("enqi", [&](Var& o) { o.seti(v.enqi()); });
        again("enqc", [&](Var& o) { o.setc(v.enqc()); });
        again("enqs", [&](Var& o) { o.sets(v.enqs()); });
        again("format", [&](Var& o) { o.setf(v.format().c_str()); });
        again("setval", [&](Var& o) { o.setval(v); });
        {
            char* buf = nullptr; size_t sz = 0; FILE* f = open_memstream(&buf, &sz);
            v.format(f, "zz"); fclose(f);
            std::string got(buf, sz); free(buf);
            c.check(got == txt, "format-file", ctx + ": " + esc(got));
        }
        // Numbers near d are stored as i
        double off = (r.real() - 0.5) * 0.98 * u;
        double dd = d + off;
        if (i > b.imin() && i < b.imax() && std::fabs((double)(varpool::scaled(dd, b.scale) - i)) < 0.499)
        {
            again("nearby number", [&](Var& o) { o.setd(dd); });
            int got = vi.encode_decimal(dd);
            c.check(got == i, "encode_decimal", ctx + fmt(": encode_decimal(%.17g) = %d", dd, got));
            c.check(vi.round_decimal(dd) == d, "round_decimal", ctx + fmt(": round_decimal(%.17g) = %.17g", dd, vi.round_decimal(dd)));
            // Text with more digits than needed
            again("long text", [&](Var& o) { o.setf(fmt("%.25f", dd).c_str()); });
        }
        c.check(vi.decode_decimal((int)i) == d, "decode_decimal", ctx + fmt(": %.17g", vi.decode_decimal((int)i)));
        c.check(vi.encode_decimal(d) == i, "encode_decimal", ctx + fmt(": %d", vi.encode_decimal(d)));
        c.check(vi.round_decimal(d) == d, "round_decimal", ctx + fmt(": %.17g", vi.round_decimal(d)));
    }
    // Conversions also work outside the domain of the entry, or fail
    for (int n = 0; n < 4; ++n)
    {
        int64_t i = r.range(INT_MIN, INT_MAX);
        double d = varpool::unscaled(i, b.scale);
        c.check(vi.decode_decimal((int)i) == d && vi.encode_decimal(d) == i, "decimal-any", b.str() + fmt(" %lld", (long long)i));
        double big = varpool::unscaled((int64_t)(r.chance(1, 2) ? 1 : -1) * ((int64_t)3000000000ll << r.below(30)), b.scale);
        if (r.chance(1, 8)) big = r.chance(1, 2) ? NAN : r.chance(1, 2) ? INFINITY : -INFINITY;
        try { int x = vi.encode_decimal(big); c.failstop("encode_decimal-unfit", b.str() + fmt(" encode_decimal(%g) = %d", big, x)); }
        catch (error&) { c.count("decimal-refused"); }
    }
    if (b.bit_len == 0)
    {
        try { vi.decode_binary(1); c.failstop("decode_binary-nobits", b.str()); } catch (error_consistency&) {}
        try { vi.encode_binary(1); c.failstop("encode_binary-nobits", b.str()); } catch (error_consistency&) {}
        return;
    }
    if (b.bit_len > 32) return;
    for (int n = 0; n < 8; ++n)
    {
        int64_t all = ((int64_t)1 << b.bit_len) - 1;
        int64_t top = ref::X(b.code) == 31 ? all : all - 1;
        int64_t raw;
        switch (r.below(4)) { case 0: raw = r.below(3); break; case 1: raw = top - (int64_t)r.below(3); break; default: raw = r.range(0, top); }
        if (raw < 0 || raw > top) continue;
        double d = varpool::unscaled(raw + b.bit_ref, b.scale);
        c.count("binary-numbers");
        double got = vi.decode_binary((uint32_t)raw);
        c.check(got == d, "decode_binary", b.str() + fmt(" decode_binary(%lld) = %.17g instead of %.17g", (long long)raw, got, d));
        double dd = d + (r.chance(1, 2) ? 0 : (r.real() - 0.5) * 0.9 * u);
        if (std::fabs((double)(varpool::scaled(dd, b.scale) - (raw + b.bit_ref))) > 0.49) dd = d;
        try {
            uint32_t e2 = vi.encode_binary(dd);
            c.check(e2 == raw, "encode_binary", b.str() + fmt(" encode_binary(%.17g) = %u instead of %lld", dd, e2, (long long)raw));
        } catch (error& x) { c.failstop("encode_binary-refused", b.str() + fmt(" %.17g: ", dd) + x.what()); }
        // Just outside, or far away
        int64_t outside = r.chance(1, 2) ? -1 - (int64_t)r.below(r.chance(1, 2) ? 3 : 1000000) : top + 1 + (int64_t)r.below(r.chance(1, 2) ? 3 : 1000000);
        double od = varpool::unscaled(outside + b.bit_ref, b.scale);
        if (r.chance(1, 10)) od = r.chance(1, 3) ? NAN : r.chance(1, 2) ? INFINITY : -INFINITY;
        try { uint32_t x = vi.encode_binary(od); c.failstop("encode_binary-unfit", b.str() + fmt(" encode_binary(%.17g) = %u", od, x)); }
        catch (error&) { c.count("binary-refused"); }
    }
}
Reg r2("var_numbers", mode_numbers, varpool::setup);

}
