#include "mutate.h"
#include <algorithm>
using namespace ref;
namespace mut {

static const unsigned char interesting[] = {0, 1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 18, 21, 22, 31, 32, 33, 63, 64, 127, 128, 192, 223, 254, 255};

std::string blind(vf::Rng& r, std::string m)
{
    unsigned n = r.chance(1, 2) ? 1 : 1 + r.below(8);
    for (unsigned i = 0; i < n && !m.empty(); ++i)
    {
        size_t p = r.below(m.size());
        switch (r.below(8))
        {
            case 0: m[p] ^= 1 << r.below(8); break;
            case 1: m[p] = interesting[r.below(sizeof(interesting))]; break;
            case 2: m[p] = r.next(); break;
            case 3: m.erase(p, 1 + r.below(std::min<size_t>(20, m.size() - p))); break;
            case 4: m.insert(p, std::string(1 + r.below(8), (char)r.next())); break;
            case 5: m.resize(p); break;
            case 6: { size_t q = r.below(m.size()), k = r.below(std::min<size_t>(32, m.size() - q)); m.insert(p, m.substr(q, k)); break; }
            case 7: for (size_t k = p; k < m.size() && k < p + 6; ++k) m[k] = r.chance(1, 2) ? 0xff : 0; break;
        }
    }
    return m;
}

static Code random_code(vf::Rng& r, const TableSet& t)
{
    switch (r.below(12))
    {
        case 0: case 1: case 2: case 3: { auto& o = t.b->order; return o[r.below(o.size())].code; }
        case 4: { auto i = t.d->d.begin(); std::advance(i, r.below(t.d->d.size())); return i->first; }
        case 5: case 6: // operators
        {
            static const unsigned xs[] = {1, 2, 3, 4, 5, 6, 7, 8, 21, 22, 23, 24, 25, 32, 35, 36, 37, 41, 42, 43};
            static const unsigned ys[] = {0, 0, 0, 1, 4, 8, 16, 32, 64, 100, 124, 127, 128, 129, 132, 160, 200, 254, 255, 255};
            return mk(2, xs[r.below(20)], ys[r.below(20)]);
        }
        case 7: { static const unsigned ys[] = {0, 0, 1, 2, 3, 8, 20}; return mk(1, 1 + r.below(r.chance(1, 6) ? 63 : 6), ys[r.below(7)]); }
        case 8: { static const unsigned ys[] = {0, 1, 2, 11, 12, 21, 31}; return mk(0, 31, ys[r.below(7)]); }
        case 9: { static const Code cs[] = {mk(0, 1, 19), mk(0, 1, 31), mk(0, 8, 24), mk(0, 8, 23), mk(0, 33, 7), mk(0, 31, 31), mk(0, 0, 10)}; return cs[r.below(7)]; }
        case 10: return r.next();
        default: return mk(2, r.below(64), r.below(256));
    }
}
static void mutate_dd(vf::Rng& r, std::vector<Code>& dd, const TableSet& t)
{
    unsigned n = 1 + r.below(4);
    for (unsigned i = 0; i < n; ++i)
    {
        size_t p = dd.empty() ? 0 : r.below(dd.size());
        switch (r.below(5))
        {
            case 0: case 1: dd.insert(dd.begin() + p, random_code(r, t)); break;
            case 2: if (!dd.empty()) dd.erase(dd.begin() + p); break;
            case 3: if (!dd.empty()) dd[p] = random_code(r, t); break;
            case 4: if (!dd.empty()) std::swap(dd[p], dd[r.below(dd.size())]); break;
        }
    }
}
static std::string random_data(vf::Rng& r, size_t n)
{
    std::string s(n, 0);
    unsigned style = r.below(5);
    for (auto& c : s)
        c = style == 0 ? 0xff : style == 1 ? 0 : style == 2 ? r.next() : style == 3 ? (r.chance(1, 4) ? r.next() : 0) : (r.chance(1, 3) ? r.next() : 0xff);
    return s;
}

std::string bufr_assemble(unsigned edition, unsigned mtv, unsigned subsets, bool compressed, const std::vector<Code>& dd, const std::string& data,
    bool opt, const std::string& optdata, unsigned centre, unsigned subcentre, unsigned mtvl)
{
    std::string m = "BUFR"; m += std::string(3, 0); m += (char)edition;
    if (edition == 4)
    {
        char s1[22] = {0, 0, 22, 0, (char)(centre >> 8), (char)centre, (char)(subcentre >> 8), (char)subcentre, 0, (char)(opt ? 0x80 : 0), 0, 1, 2, (char)mtv, (char)mtvl, 0x07, (char)0xe4, 3, 4, 5, 6, 7};
        m += std::string(s1, 22);
    } else {
        char s1[18] = {0, 0, 18, 0, (char)subcentre, (char)centre, 0, (char)(opt ? 0x80 : 0), 0, 1, (char)mtv, (char)mtvl, 20, 3, 4, 5, 6, 0};
        m += std::string(s1, 18);
    }
    if (opt) { size_t p = m.size(); m += std::string(4, 0); m += optdata; put3(m, p, 4 + optdata.size()); }
    size_t p = m.size();
    m += std::string(4, 0); m += (char)(subsets >> 8); m += (char)subsets; m += (char)(0x80 | (compressed ? 0x40 : 0));
    for (auto c : dd) { m += (char)(c >> 8); m += (char)c; }
    if (edition < 4 && (m.size() - p) % 2) m += (char)0;
    put3(m, p, m.size() - p);
    p = m.size();
    m += std::string(4, 0); m += data;
    put3(m, p, m.size() - p);
    m += "7777";
    put3(m, 4, m.size());
    return m;
}

std::string bufr_synth(vf::Rng& r)
{
    static const unsigned mtvs[] = {12, 13, 14, 19, 24, 33};
    unsigned mtv = mtvs[r.below(6)];
    TableSet t = wmo_bufr(mtv);
    std::vector<Code> dd;
    unsigned n = 1 + r.below(r.chance(1, 4) ? 30 : 8);
    for (unsigned i = 0; i < n; ++i) dd.push_back(random_code(r, t));
    unsigned subsets = r.chance(1, 20) ? r.below(400) : r.below(5);
    return bufr_assemble(2 + r.below(3), mtv, subsets, r.chance(1, 2), dd, random_data(r, r.below(r.chance(1, 3) ? 400 : 40)), r.chance(1, 8), random_data(r, r.below(5)));
}

std::string bufr(vf::Rng& r, const std::string& base)
{
    std::string m = base;
    Layout l = layout(m);
    if (!l.ok) return blind(r, m);
    unsigned rounds = 1 + r.below(3);
    for (unsigned k = 0; k < rounds; ++k)
    {
        l = layout(m);
        if (!l.ok) break;
        switch (r.below(11))
        {
            case 0: // change one section length
            {
                std::vector<size_t> offs{4, 8, l.sec3, l.sec4}; if (l.sec2) offs.push_back(l.sec2);
                size_t p = r.pick(offs); unsigned v = get3(m, p);
                switch (r.below(5)) { case 0: v = r.below(9); break; case 1: v += r.range(-9, 9); break; case 2: v = 0xffffff; break; case 3: v = r.below(m.size() + 10); break; case 4: v = r.below(24); break; }
                put3(m, p, v & 0xffffff);
                break;
            }
            case 1: { static const unsigned s[] = {0, 1, 2, 3, 10, 50, 300}; unsigned v = s[r.below(7)]; m[l.sec3 + 4] = v >> 8; m[l.sec3 + 5] = v; break; }
            case 2: m[l.sec3 + 6] ^= 0x40; break;
            case 3: case 4: // descriptors
            {
                std::vector<Code> dd = l.dd; mutate_dd(r, dd, wmo_bufr(24));
                std::string s; for (auto c : dd) { s += (char)(c >> 8); s += (char)c; }
                m = m.substr(0, l.sec3 + 7) + s + m.substr(l.sec4);
                put3(m, l.sec3, 7 + s.size()); put3(m, 4, m.size());
                break;
            }
            case 5: { size_t p = l.sec1 + r.below(l.sec3 - l.sec1); m[p] = interesting[r.below(sizeof(interesting))]; break; }
            case 6: case 7: // data bits
            {
                if (l.end <= l.sec4 + 4) break;
                unsigned n = 1 + r.below(6);
                for (unsigned i = 0; i < n; ++i) { size_t p = l.sec4 + 4 + r.below(r.chance(1, 2) ? std::min(l.end - l.sec4 - 4, 40u) : l.end - l.sec4 - 4);
                    if (r.chance(1, 2)) m[p] ^= 1 << r.below(8); else m[p] = interesting[r.below(sizeof(interesting))]; }
                break;
            }
            case 8: // shorten the data, keeping everything consistent
            {
                unsigned n = r.below(l.end - l.sec4 - 3);
                if (r.chance(1, 2)) n = std::min(n, l.end - l.sec4 - 4 - std::min(l.end - l.sec4 - 4, (unsigned)r.below(4)));
                m = m.substr(0, l.sec4 + 4 + n) + (r.chance(3, 4) ? "7777" : "");
                put3(m, l.sec4, 4 + n); put3(m, 4, m.size());
                break;
            }
            case 9: m[7] = r.chance(3, 4) ? 2 + r.below(3) : r.next(); break;
            case 10: m = blind(r, m); if (r.chance(1, 2)) put3(m, 4, m.size()); break;
        }
    }
    if (r.chance(1, 10)) m.resize(r.below(m.size() + 1));
    else if (r.chance(1, 12))
    {
        // cut inside the fixed part of a section, with section lengths that
        // agree with what is left
        l = layout(m);
        if (l.ok)
        {
            std::vector<size_t> starts{8, l.sec3, l.sec4, l.end}; if (l.sec2) starts.push_back(l.sec2);
            size_t p = r.chance(1, 2) ? 8 : r.pick(starts);
            size_t cut = std::min(m.size(), p + r.below(p == 8 ? 24 : 9));
            m.resize(cut);
            if (p < l.end && p + 3 <= cut) put3(m, p, r.chance(1, 2) ? cut - p : r.below(cut - p + 1));
            put3(m, 4, m.size());
        }
    }
    return m;
}

std::string crex(vf::Rng& r, const std::string& base)
{
    static const char* toks[] = {"++", "+", "7777", "++\r\r\n7777", "\r\r\n", " ", "/", "//", "////", "T000103", "A000", "D07005", "B01001", "R01000", "R02003", "R0100", "C07000", "C23000", "P00000", "U00", "S001", "Y0100", "E", "E ", "-", "-99999999999", "00000000000000000000000000000000000", "CREX++", "SUPP++", "\0", "400", "4000", "T00010319", "A000001 P00074 U00 S001", "B", "B0", "\xff", "C01103", "C02103", "C05003", "C0", "R", "D00000", "D21212"};
    std::string m = base;
    unsigned n = 1 + r.below(4);
    for (unsigned i = 0; i < n && !m.empty(); ++i)
    {
        // Favour the header
        size_t p = r.chance(1, 2) ? r.below(std::min<size_t>(m.size(), 80)) : r.below(m.size());
        switch (r.below(9))
        {
            case 0: { const char* t = toks[r.below(sizeof(toks) / sizeof(*toks))]; m.insert(p, *t ? t : std::string(1, 0)); break; }
            case 1: { const char* t = toks[r.below(sizeof(toks) / sizeof(*toks))]; m.replace(p, strlen(t), t); break; }
            case 2: m.resize(p); break;
            case 3: m.erase(p, 1 + r.below(12)); break;
            case 4: m[p] = "0123456789/+- ABCDERSTUPY\r\n"[r.below(27)]; break;
            case 5: m[p] = r.next(); break;
            case 6: { size_t q = m.find(' ', p); if (q != std::string::npos) m.erase(q, 1); break; }
            case 7: { size_t q = m.find('+', p); if (q != std::string::npos) m.erase(q, 1 + r.below(3)); break; }
            case 8: { size_t q = r.below(m.size()), k = r.below(std::min<size_t>(40, m.size() - q)); m.insert(p, m.substr(q, k)); break; }
        }
    }
    return m;
}

}
