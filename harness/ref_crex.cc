#include "ref_crex.h"
#include <algorithm>
#include <climits>

namespace ref {

std::vector<CrexTables>& crex_tables() { static std::vector<CrexTables> t; return t; }

namespace {

struct Index { std::vector<Code> num, str, seq; };

bool usable(Code c, const CrexTables& t, unsigned& size, int depth)
{
    if (depth > 8 || size > 120) return false;
    switch (F(c))
    {
        case 0: { ++size; auto i = t.b->b.find(c); return i != t.b->b.end() && i->second.len > 0 && i->second.len < 100; }
        case 1: { unsigned n = Y(c); size += n ? n : 2; return n < 12 && X(c); }
        case 2: return false;
        case 3:
        {
            auto e = t.d->d.find(c);
            if (e == t.d->d.end()) return false;
            for (size_t i = 0; i < e->second.size(); ++i)
            {
                Code k = e->second[i];
                // explicit factors are understood only after a delayed replication
                if (F(k) == 0 && X(k) == 31 && !(i && F(e->second[i - 1]) == 1 && Y(e->second[i - 1]) == 0)) return false;
                if (!usable(k, t, size, depth + 1)) return false;
            }
            // a replication must find all its descriptors inside the sequence
            for (size_t i = 0; i < e->second.size(); ++i)
                if (F(e->second[i]) == 1)
                {
                    size_t p = i + 1;
                    if (Y(e->second[i]) == 0 && p < e->second.size() && F(e->second[p]) == 0 && X(e->second[p]) == 31) ++p;
                    if (p + X(e->second[i]) > e->second.size()) return false;
                }
            return true;
        }
    }
    return false;
}

const Index& index_of(const CrexTables& t)
{
    static std::map<const void*, std::map<const void*, Index>> cache;
    Index& i = cache[t.b][t.d];
    if (!i.num.empty()) return i;
    for (auto& e : t.b->order)
    {
        if (X(e.code) == 31 || !e.len || e.len > 100) continue;
        if (e.kind == STR) i.str.push_back(e.code); else if (e.len <= 15) i.num.push_back(e.code);
    }
    for (auto& e : t.d->d) { unsigned size = 0; if (usable(e.first, t, size, 0)) i.seq.push_back(e.first); }
    return i;
}

struct Gen
{
    vf::Rng& r; const CrexTables& t; const Index& ix; CrexMsg& g;
    unsigned miss; unsigned steps = 0; unsigned max_steps = 1500; unsigned max_factor = 3; int max_depth = 2;
    RSubset* out = nullptr; std::vector<std::string>* tok = nullptr; std::vector<char>* kind = nullptr;
    std::vector<Step>* log = nullptr; std::vector<Code> path;
    void trace(Code c) { if (log) log->push_back(Step{Step::VAR, path, c, (unsigned)out->size()}); }
    Gen(vf::Rng& r, const CrexTables& t, CrexMsg& g) : r(r), t(t), ix(index_of(t)), g(g) {}

    std::vector<Code> items(unsigned n, int depth)
    {
        std::vector<Code> res;
        for (unsigned i = 0; i < n; ++i)
        {
            // Operators that change nothing
            if (r.chance(1, 50)) res.push_back(mk(2, 1 + r.below(2), 0));
            std::vector<Code> sub;
            switch (r.below(10))
            {
                case 0: case 1: if (!ix.seq.empty()) { res.push_back(r.pick(ix.seq)); break; } // fall through
                case 2: case 3: if (!ix.str.empty() && r.chance(1, 2)) { res.push_back(r.pick(ix.str)); break; } // fall through
                default: res.push_back(r.pick(ix.num)); break;
                case 7: case 8:
                    if (depth > max_depth) { res.push_back(r.pick(ix.num)); break; }
                    sub = items(1 + r.below(r.chance(1, 40) ? 30 : 3), depth + 1);
                    if (sub.size() > 63) { res.insert(res.end(), sub.begin(), sub.end()); break; }
                    if (r.chance(1, 2) || !t.b->b.count(mk(0, 31, 12))) res.push_back(mk(1, sub.size(), r.chance(1, 60) ? 1 + r.below(255) : 1 + r.below(4)));
                    else
                    {
                        res.push_back(mk(1, sub.size(), 0));
                        if (r.chance(1, 8))
                        {
                            Code fc = mk(0, 31, r.below(3));
                            if (t.b->b.count(fc)) { res.push_back(fc); g.explicit_factor = true; }
                        }
                    }
                    res.insert(res.end(), sub.begin(), sub.end());
                    break;
            }
        }
        return res;
    }

    void value(Code c)
    {
        auto e = t.b->b.find(c);
        if (e == t.b->b.end()) throw BadData(fxy(c));
        const BInfo& i = e->second;
        RVar v; v.info = i;
        std::string s;
        if (i.kind == STR)
        {
            kind->push_back('s');
            if (r.chance(1, miss)) s = std::string(i.len, '/');
            else
            {
                unsigned style = r.below(5);
                unsigned used = style == 0 ? i.len : style == 1 ? 1 : r.below(i.len + 1);
                if (!g.check && !used) used = 1;
                for (unsigned k = 0; k < used; ++k) s += r.chance(1, 40) ? (char)(0xa1 + r.below(90)) : r.chance(1, 20) ? "+/-E"[r.below(4)] : (char)(0x20 + r.below(95));
                if (!g.check && s[0] == ' ') s[0] = 'L';   // see known-findings.txt
                while (!s.empty() && s.back() == ' ') s.pop_back();
                if (s.size() == i.len && s.find_first_not_of('/') == std::string::npos) s[0] = 'x';
                v.isset = true; v.s = s;
                s.resize(i.len, ' ');
            }
        } else {
            kind->push_back('n');
            if (r.chance(1, miss)) s = std::string(i.len, '/');
            else
            {
                int64_t lo = i.imin(), hi = i.imax();
                switch (r.below(7))
                {
                    case 0: v.i = lo; break;
                    case 1: v.i = hi; break;
                    case 2: v.i = 0; break;
                    case 3: v.i = std::max(lo, std::min(hi, r.range(-9, 9))); break;
                    case 4: v.i = r.range(lo, std::min<int64_t>(hi, 0)); break;
                    default: v.i = r.range(lo, hi); break;
                }
                v.isset = true;
                s = vf::fmt("%lld", (long long)(v.i < 0 ? -v.i : v.i));
                if (s.size() > i.len) throw Unsup("does not fit");
                s = std::string(i.len - s.size(), '0') + s;
                if (v.i < 0) s = "-" + s;
            }
        }
        trace(c);
        out->push_back(v);
        tok->push_back(s);
    }

    void run(const std::vector<Code>& ops, int depth)
    {
        if (depth > 10) throw Unsup("too deep");
        for (size_t p = 0; p < ops.size(); )
        {
            if (++steps > max_steps) throw Unsup("too long");
            Code c = ops[p++];
            switch (F(c))
            {
                case 0: value(c); break;
                case 1:
                {
                    unsigned n = Y(c); Code fc = mk(0, 31, 12);
                    bool delayed = !n;
                    if (delayed && p < ops.size() && F(ops[p]) == 0 && X(ops[p]) == 31) fc = ops[p++];
                    if (p + X(c) > ops.size()) throw Unsup("short");
                    std::vector<Code> sub(ops.begin() + p, ops.begin() + p + X(c));
                    p += X(c);
                    path.push_back(c);
                    if (delayed)
                    {
                        auto e = t.b->b.find(fc);
                        if (e == t.b->b.end()) throw Unsup("factor");
                        n = r.chance(1, 30) ? 12 : r.below(max_factor + 1);
                        if ((int64_t)n > e->second.imax()) n = e->second.imax();
                        RVar v; v.info = e->second; v.isset = true; v.i = n;
                        trace(fc);
                        out->push_back(v); tok->push_back(vf::fmt("%04u", n)); kind->push_back('f');
                    }
                    for (unsigned k = 0; k < n; ++k) run(sub, depth + 1);
                    path.pop_back();
                    break;
                }
                case 2: if (Y(c) || X(c) < 1 || X(c) > 2) throw Unsup("operator"); break;
                case 3:
                {
                    auto e = t.d->d.find(c);
                    if (e == t.d->d.end()) throw Unsup("sequence");
                    path.push_back(c);
                    run(e->second, depth + 1);
                    path.pop_back();
                    break;
                }
            }
        }
    }
};

}

std::string crex_layout(const CrexMsg& g, bool canonical, vf::Rng* r, const std::vector<std::vector<std::string>>& tokens)
{
    auto blank = [&](const char* def) -> std::string {
        if (canonical || !r || r->chance(2, 3)) return def;
        static const char* alt[] = {" ", "  ", "\r\r\n", " \r\r\n", "\n", "\r\r\n  ", "\t"};
        return alt[r->below(7)];
    };
    std::string m = "CREX++" + blank("\r\r\n") + vf::fmt("T%02u%02u%02u", g.mtn, g.ed, g.mtv) + blank(" ");
    m += g.subcat == 0xff ? vf::fmt("A%03u", g.cat) : vf::fmt("A%03u%03u", g.cat, g.subcat);
    auto factor = [](Code c) { return F(c) == 0 && X(c) == 31 && Y(c) < 3; };
    for (size_t i = 0; i < g.dd.size(); ++i)
    {
        Code c = g.dd[i];
        if (canonical)
        {
            // replication factors are implicit, and are not counted as replicated
            if (factor(c)) continue;
            if (F(c) == 1)
            {
                size_t p = i + 1; unsigned x = X(c), drop = 0;
                if (Y(c) == 0 && p < g.dd.size() && factor(g.dd[p])) ++p;
                for (unsigned k = 0; k < x && p + k < g.dd.size(); ++k) if (factor(g.dd[p + k])) ++drop;
                c = mk(1, x - drop, Y(c));
            }
        }
        m += blank(" ") + fxy(c);
    }
    if (g.check) m += blank(" ") + "E";
    m += "++" + blank("\r\r\n");
    unsigned digit = 1;
    for (size_t s = 0; s < tokens.size(); ++s)
    {
        if (s) m += canonical || !r || r->chance(2, 3) ? "+\r\r\n" : "+" + blank("\r\r\n");
        bool first = true;
        for (auto& tk : tokens[s])
        {
            m += canonical || !first || !r || r->chance(1, 2) ? blank(" ") : "";
            first = false;
            if (g.check) { m += '0' + digit; digit = (digit + 1) % 10; }
            m += tk;
        }
        if (!canonical && r && r->chance(1, 3)) m += blank(" ");
    }
    m += "++" + blank("\r\r\n");
    if (!canonical && r && r->chance(1, 4)) { m += "SUPP"; bool plus = true;
        for (unsigned i = 0, n = r->below(30); i < n; ++i)
            // A single plus is not the end
            if (!plus && i + 1 < n && r->chance(1, 8)) { m += '+'; plus = true; }
            else { m += r->chance(1, 30) ? "7777" : r->chance(1, 30) ? "CREX" : r->chance(1, 4) ? " " : std::string(1, (char)('A' + r->below(26))); plus = false; }
        m += "++" + blank("\r\r\n"); }
    m += "7777";
    m += canonical || !r || r->chance(2, 3) ? "\r\r\n" : "";
    return m;
}

CrexMsg gen_crex(vf::Rng& r, bool allow_big)
{
    auto& all = crex_tables();
    if (all.empty()) throw std::runtime_error("no CREX tables found");
    const unsigned big = allow_big && r.chance(1, 100) ? 1 + r.below(3) : 0; // long replications, many descriptors, many subsets
    for (unsigned attempt = 0; attempt < 4000; ++attempt)
    {
        const CrexTables& t = r.pick(all);
        CrexMsg g;
        g.mtn = t.mtn; g.ed = t.ed; g.mtv = t.mtv; g.b = t.b; g.d = t.d;
        g.cat = r.below(256); g.subcat = r.chance(1, 2) ? 0xff : r.below(255);
        g.check = r.chance(1, 2);
        Gen gen(r, t, g);
        if (gen.ix.num.empty()) continue;
        static const unsigned ms[] = {2, 8, 8, 30, 1000000};
        gen.miss = ms[r.below(5)];
        if (r.chance(1, 12)) gen.max_depth = 5;
        g.dd = gen.items(big ? r.below(3) : 1 + r.below(r.chance(1, 5) ? 20 : 6), 0);
        if (big)
        {
            gen.max_steps = 60000;
            unsigned k = 1 + r.below(4);
            switch (big)
            {
                case 1: g.dd.push_back(mk(1, k, 0)); gen.max_factor = r.chance(1, 3) ? 9999 : r.chance(1, 2) ? 256 + r.below(50) : 1000; break;
                case 2: if (r.chance(1, 2)) { k = r.chance(1, 2) ? 40 + r.below(24) : 1 + r.below(5); g.dd.push_back(mk(1, k, 100 + r.below(156))); } else k = 200 + r.below(400); break;
            }
            for ( ; k; --k) g.dd.push_back(r.pick(gen.ix.num));
        }
        if (g.dd.size() > (big ? 1000 : 150)) continue;
        unsigned n = r.chance(1, 12) ? 1 + r.below(20) : 1 + r.below(3);
        if (big) n = big == 3 ? 200 + r.below(1000) : 1 + r.below(2);
        g.big = big;
        g.expected.resize(n); g.steps.resize(n); g.tokens.resize(n); g.kinds.resize(n);
        try
        {
            for (unsigned i = 0; i < n; ++i)
            {
                gen.out = &g.expected[i]; gen.log = &g.steps[i]; gen.tok = &g.tokens[i]; gen.kind = &g.kinds[i];
                gen.run(g.dd, 0);
                // Empty subsets cannot be told apart
                if (g.expected[i].empty()) throw Unsup("empty");
            }
        } catch (Unsup&) { continue; } catch (BadData&) { continue; }
        g.canonical = crex_layout(g, true, nullptr, g.tokens);
        g.msg = crex_layout(g, false, &r, g.tokens);
        uint64_t h = vf::fnv(g.dd.data(), g.dd.size() * 2, g.check + 2 + g.mtv * 4);
        for (auto& s : g.expected) { size_t k = s.size(); h = vf::fnv(&k, sizeof k, h); }
        g.shape = h;
        return g;
    }
    throw std::runtime_error("cannot generate a CREX message");
}

}
