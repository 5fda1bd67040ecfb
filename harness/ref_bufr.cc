#include "ref_bufr.h"
#include <algorithm>
#include <climits>

namespace ref {

std::string RVar::str() const
{
    std::string v = !isset ? "(unset)" : (info.kind == STR || info.kind == BIN) ? vf::jstr(s) : std::to_string(i);
    std::string r = info.str() + " = " + v;
    for (auto& a : attrs) r += " {" + a.str() + "}";
    return r;
}

static unsigned digits_of_bits(unsigned bits)
{
    unsigned n = 0; uint64_t v = bits >= 64 ? ~0ull : (uint64_t(1) << bits) - 1;
    while (v) { ++n; v /= 10; }
    return n;
}

BInfo altered(const BInfo& i, int scale, int bit_len, int64_t bit_ref)
{
    if (scale == i.scale && bit_len == (int)i.bit_len && bit_ref == i.bit_ref) return i;
    BInfo r = i;
    r.scale = scale; r.bit_len = bit_len; r.bit_ref = bit_ref;
    if (i.kind == STR) { if (bit_len <= 0) throw Unsup("string width"); r.len = bit_len / 8; return r; }
    if (i.kind == BIN) return r;
    if (!i.bit_len) throw Unsup("no binary encoding");
    if (scale < -16 || scale > 16 || bit_len < 1 || bit_len > 32 || bit_ref < INT_MIN || bit_ref > INT_MAX) throw Unsup("alteration out of range");
    r.kind = scale ? DEC : INT;
    r.len = digits_of_bits(bit_len);
    return r;
}

const BInfo& Walker::query(Code c)
{
    auto i = b.b.find(c);
    if (i == b.b.end()) throw BadData(fxy(c) + " not in table B");
    return i->second;
}

BInfo Walker::info_for(Code c)
{
    const BInfo& i = query(c);
    bool numeric = (i.kind == INT || i.kind == DEC) && !i.table_kind();
    int scale = i.scale, bits = i.bit_len; int64_t refv = i.bit_ref;
    if (numeric) scale += scale_change;
    if (i.kind == STR) { if (str_len) bits = str_len * 8; }
    else if (numeric) bits += width_change;
    if (numeric && incr)
    {
        scale += incr; bits += (10 * incr + 2) / 3;
        for (int k = 0; k < incr; ++k) { refv *= 10; if (refv > INT_MAX || refv < INT_MIN) throw Unsup("reference overflow"); }
    }
    auto o = c03.find(c);
    if (o != c03.end()) refv = o->second;
    if (i.kind != STR && (bits < 1 || bits > 32)) throw Unsup("width");
    return altered(i, scale, bits, refv);
}

static std::string trimmed(std::string s)
{
    while (s.size() > 1 && (s.back() == 0 || s.back() == ' ' || (s.back() >= 9 && s.back() <= 13))) s.pop_back();
    return s;
}

static bool no_missing(Code c)
{
    if (F(c) != 0 || X(c) != 31) return false;
    unsigned y = Y(c);
    return y <= 2 || y == 11 || y == 12;
}

std::vector<RVar> Walker::values(const BInfo& i, Field f)
{
    std::vector<RVar> res(src.N);
    for (auto& v : res) v.info = i;
    if (i.kind == STR)
    {
        std::vector<std::string> raw = src.str(*this, i.bit_len / 8, false);
        for (unsigned c = 0; c < src.N; ++c)
        {
            std::string& s = raw[c];
            bool ones = true;
            for (unsigned char ch : s) if (ch != 0xff) ones = false;
            bool ones_or_zero = true;
            for (unsigned char ch : s) if (ch != 0xff && ch != 0) ones_or_zero = false;
            if (ones_or_zero && !ones) throw Unsup("string of zeros");
            if (!ones)
            {
                std::string t = trimmed(s);
                if (t.find('\0') != std::string::npos) throw Unsup("string with embedded zeros");
                if (t.size() > i.len) throw Unsup("string longer than its entry");
                res[c].isset = true; res[c].s = t;
                std::string pad = t; pad.resize(i.bit_len / 8, ' ');
                for (unsigned char ch : pad) enc[c]->put(ch, 8);
            } else
                enc[c]->ones(i.bit_len / 8 * 8);
        }
        return res;
    }
    if (i.kind == BIN)
    {
        if (src.compressed) throw Unsup("compressed binary");
        std::string s = src.bin(*this, i.bit_len);
        if (!s.empty())
        {
            res[0].isset = true; res[0].s = s;
            for (unsigned k = 0, left = i.bit_len; left; ++k) { unsigned n = std::min(left, 8u); enc[0]->put((unsigned char)s[k], n); left -= n; }
        } else enc[0]->ones(i.bit_len);
        return res;
    }
    std::vector<uint64_t> raw = src.num(*this, i, i.bit_len, f);
    for (unsigned c = 0; c < src.N; ++c)
    {
        if (raw[c] == MISSING) { enc[c]->ones(i.bit_len); continue; }
        int64_t v = (int64_t)raw[c] + i.bit_ref;
        if (v < i.imin() || v > i.imax()) throw Unsup("value out of the domain of the variable");
        res[c].isset = true; res[c].i = v;
        enc[c]->put(raw[c], i.bit_len);
    }
    return res;
}

void Walker::store(std::vector<RVar>& v) { for (unsigned c = 0; c < src.N; ++c) out[c]->push_back(v[c]); }

static void seta(RVar& v, const RVar& a)
{
    auto i = v.attrs.begin();
    for (; i != v.attrs.end(); ++i)
    {
        if (i->info.code == a.info.code) { *i = a; return; }
        if (i->info.code > a.info.code) break;
    }
    v.attrs.insert(i, a);
}

void Walker::set_attr(unsigned pos, std::vector<RVar>& v)
{
    if (attr_seen[std::make_pair(pos, v[0].info.code)]++) encode_ambiguous = true;
    for (unsigned c = 0; c < src.N; ++c)
        if (v[c].isset || undef_attrs) seta((*out[c])[pos], v[c]);
}

unsigned Walker::bm_next()
{
    unsigned p = bm[bm_pos++];
    if (bm_pos == bm.size()) { bm_current = false; bm_last = true; }
    return p;
}

void Walker::define_bitmap(unsigned n)
{
    if (!n) throw Unsup("empty bitmap");
    std::string s;
    for (unsigned k = 0; k < n; ++k)
    {
        bool absent = src.bit(*this);
        s += absent ? '-' : '+';
        for (auto e : enc) e->put(absent, 1);
    }
    std::vector<unsigned> refs;
    unsigned cur = out[0]->size();
    for (unsigned k = n; k > 0; --k)
    {
        do { if (!cur) throw BadData("bitmap longer than the variables"); --cur; } while (F((*out[0])[cur].info.code) != 0);
        if (s[k - 1] == '+') refs.push_back(cur);
    }
    std::reverse(refs.begin(), refs.end());
    std::vector<RVar> v(src.N);
    for (auto& x : v)
    {
        x.info.code = pending; x.info.kind = STR; x.info.len = n; x.info.bit_len = n * 8; x.info.unit = "CCITTIA5";
        x.isset = true; x.s = s;
    }
    trace(Step::BITMAP, pending, out[0]->size());
    store(v);
    // Redefining a bitmap that is still in use loses it
    bm = refs; bm_pos = 0; bm_current = true; bm_last = false;
    pending = 0;
    stat("bitmap");
    if (refs.empty()) stat("bitmap-empty");
    if (n > 255) stat("bitmap>255");
}

static Code af_attr(unsigned sig)
{
    switch (sig)
    {
        case 1: case 8: return mk(0, 33, 2);
        case 2: return mk(0, 33, 3);
        case 6: return mk(0, 33, 50);
        case 7: return mk(0, 33, 40);
        case 21: return mk(0, 33, 41);
        default: return 0;
    }
}

void Walker::element(Code c)
{
    if (c03_bits)
    {
        if (src.compressed) throw Unsup("compressed C03");
        const BInfo& i = query(c);
        int64_t v = src.refval(*this, i, c03_bits);
        c03[c] = v;
        uint64_t mag = v < 0 ? -v : v;
        enc[0]->put(v < 0 ? mag | (uint64_t(1) << (c03_bits - 1)) : mag, c03_bits);
        trace(Step::REFVAL, c, out[0]->size(), c03_bits, v);
        stat("C03-value");
        return;
    }
    BInfo i = info_for(c);
    if (X(c) == 33 && bm_active())
    {
        if (af_bits) throw Unsup("bitmap attribute with associated fields");
        unsigned p = bm_next();
        std::vector<RVar> v = values(i, ATTR);
        set_attr(p, v);
        trace(Step::ATTRIBUTE, c, p);
        stat("attribute");
        return;
    }
    if (af_bits)
    {
        Code ac = af_attr(af_sig);
        BInfo ai; ai.code = 0;
        if (ac) { ai = query(ac); }
        if (i.kind == BIN) throw Unsup("associated field of binary");
        std::vector<uint64_t> raw = src.num(*this, ai, af_bits, AF);
        for (unsigned k = 0; k < src.N; ++k)
        {
            if (raw[k] == MISSING || !ac) { enc[k]->ones(af_bits); continue; }
            if ((int64_t)raw[k] > ai.imax() || (int64_t)raw[k] < ai.imin()) throw Unsup("associated field out of domain");
            enc[k]->put(raw[k], af_bits);
        }
        std::vector<RVar> v = values(i, PLAIN);
        if (ac) for (unsigned k = 0; k < src.N; ++k)
        {
            RVar a; a.info = ai; a.isset = raw[k] != MISSING; a.i = a.isset ? raw[k] : 0;
            if (a.isset || undef_attrs) seta(v[k], a);
        }
        trace(Step::ASSOC, c, out[0]->size(), af_sig);
        trace(Step::VAR, c, out[0]->size());
        store(v);
        for (unsigned k = 0; ac && k < 1; ++k) attr_seen[std::make_pair((unsigned)out[0]->size() - 1, ac)]++;
        stat("associated-field");
        return;
    }
    std::vector<RVar> v = values(i, PLAIN);
    trace(Step::VAR, c, out[0]->size());
    store(v);
}

void Walker::modifier(Code c, const std::vector<Code>& ops, size_t& pos)
{
    unsigned y = Y(c);
    switch (X(c))
    {
        case 1: width_change = y ? (int)y - 128 : 0; stat("C01"); break;
        case 2: scale_change = y ? (int)y - 128 : 0; stat("C02"); break;
        case 3:
            if (y == 255) c03_bits = 0;
            else if (y == 0) { c03_bits = 0; c03.clear(); }
            else { if (y > 32) throw Unsup("C03 width"); c03_bits = y; }
            stat("C03");
            break;
        case 4:
            if (y && af_bits) throw Unsup("nested C04");
            if (y > 32) throw Unsup("C04 width");
            if (y)
            {
                if (pos >= ops.size()) throw BadData("C04 without B31021");
                if (ops[pos] != mk(0, 31, 21)) throw BadData("C04 without B31021");
                ++pos;
                std::vector<RVar> v = values(query(mk(0, 31, 21)), SIG);
                trace(Step::VAR, mk(0, 31, 21), out[0]->size());
                store(v);
                af_sig = v[0].isset ? v[0].i : 63;
                if (af_sig > 63 || af_sig == 0) throw Unsup("significance");
                stat("C04");
            }
            af_bits = y;
            break;
        case 5:
        {
            if (src.compressed || !y) throw Unsup("compressed or empty C05");
            std::vector<std::string> raw = src.str(*this, y, true);
            std::vector<RVar> v(1);
            v[0].info.code = c; v[0].info.kind = STR; v[0].info.len = y; v[0].info.bit_len = y * 8; v[0].info.unit = "CCITTIA5";
            if (raw[0].find('\0') != std::string::npos) throw Unsup("zero in character data");
            v[0].isset = true; v[0].s = raw[0];
            for (unsigned char ch : raw[0]) enc[0]->put(ch, 8);
            trace(Step::RAW, c, out[0]->size());
            store(v);
            stat("C05");
            break;
        }
        case 6:
        {
            if (pos >= ops.size()) throw BadData("C06 at the end");
            Code lc = ops[pos++];
            if (!y) break;
            if (F(lc) != 0) throw Unsup("C06 with a non element");
            if (af_bits) throw Unsup("C06 with associated fields");
            if (b.b.count(lc))
            {
                BInfo i = info_for(lc);
                if (i.bit_len == y) { std::vector<RVar> v = values(i, PLAIN); trace(Step::VAR, lc, out[0]->size()); store(v); stat("C06-known"); break; }
            }
            BInfo i; i.code = lc; i.kind = BIN; i.bit_len = y; i.len = (y + 7) / 8;
            std::vector<RVar> v = values(i, PLAIN);
            trace(Step::VAR, lc, out[0]->size());
            store(v);
            stat("C06-unknown");
            break;
        }
        case 7: incr = y; stat("C07"); break;
        case 8: str_len = y; stat("C08"); break;
        case 22: if (y) throw BadData("C22"); pending = c; stat("C22"); break;
        case 23:
            if (y == 0) { pending = c; stat("C23"); }
            else if (y == 255)
            {
                if (!bm_active()) throw BadData("C23255 without bitmap");
                if (af_bits) throw Unsup("C23255 with associated fields");
                unsigned p = bm_next();
                std::vector<RVar> v = values((*out[0])[p].info, ATTR);
                set_attr(p, v);
                trace(Step::ATTRIBUTE, (*out[0])[p].info.code, p);
                stat("C23255");
            }
            else throw BadData("C23");
            break;
        case 36: stat("C36"); break;
        case 37:
            if (y == 0)
            {
                // Unambiguous only if the last bitmap was used in full
                if (!bm_last && !(bm_current && bm.empty())) throw Unsup("C37000 without a complete bitmap");
                bm_pos = 0; bm_current = true; bm_last = false; pending = 0;
                stat("C37000");
            }
            else if (y == 255)
            {
                if (bm_current) throw Unsup("C37255 with a bitmap in use");
                bm_last = false; bm.clear();
                stat("C37255");
            }
            else throw BadData("C37");
            break;
        default: throw Unsup("operator " + fxy(c));
    }
}

void Walker::run(const std::vector<Code>& ops, int depth)
{
    if (depth > 20) throw Unsup("too deep");
    for (size_t p = 0; p < ops.size(); )
    {
        if (++steps > max_steps) throw Unsup("too long");
        Code c = ops[p++];
        switch (F(c))
        {
            case 0: element(c); break;
            case 1:
            {
                unsigned n = Y(c); Code fc = 0;
                if (!n)
                {
                    if (p < ops.size() && F(ops[p]) == 0 && X(ops[p]) == 31) fc = ops[p++];
                    else throw Unsup("delayed replication without factor");
                    if (!no_missing(fc) || Y(fc) > 2) throw Unsup("unusual factor");
                }
                if (p + X(c) > ops.size() || !X(c)) throw Unsup("short replication");
                std::vector<Code> sub(ops.begin() + p, ops.begin() + p + X(c));
                p += X(c);
                if (c03_bits) throw Unsup("replication inside C03");
                if (pending)
                {
                    if (X(c) != 1 || sub[0] != mk(0, 31, 31)) throw BadData("bitmap of something else");
                    if (fc)
                    {
                        std::vector<RVar> v = values(query(fc), BITMAP_FACTOR);
                        if (!v[0].isset) throw Unsup("missing factor");
                        n = v[0].i;
                        trace(Step::BITMAP_COUNT, fc, out[0]->size(), n);
                        stat("bitmap-delayed");
                    }
                    define_bitmap(n);
                    break;
                }
                path.push_back(c);
                if (fc)
                {
                    std::vector<RVar> v = values(query(fc), FACTOR);
                    if (!v[0].isset) throw Unsup("missing factor");
                    trace(Step::VAR, fc, out[0]->size());
                    store(v);
                    n = v[0].i;
                    stat("delayed");
                    if (n > 255) stat("delayed>255");
                    if (n > 32767) stat("delayed>32767");
                    if (depth > 3) stat("deep");
                    if (!n) stat("delayed-0");
                } else stat("replication");
                for (unsigned k = 0; k < n; ++k) run(sub, depth + 1);
                path.pop_back();
                break;
            }
            case 2: modifier(c, ops, p); break;
            case 3:
            {
                auto e = d.d.find(c);
                if (e == d.d.end()) throw BadData(fxy(c) + " not in table D");
                stat("sequence");
                path.push_back(c);
                run(e->second, depth + 1);
                path.pop_back();
                break;
            }
        }
    }
}

// ---------------------------------------------------------------- generation

static unsigned bits_for(uint64_t v) { unsigned n = 0; while (v) { ++n; v >>= 1; } return n; }

std::vector<uint64_t> GenSrc::num(Walker& w, const BInfo& i, unsigned bits, Field f)
{
    std::vector<uint64_t> res(N);
    uint64_t ones = bits >= 64 ? ~0ull : (uint64_t(1) << bits) - 1;
    uint64_t lo = 0, hi = ones ? ones - 1 : 0;
    bool can_miss = true;
    bool uniform = false;
    if (f == AF)
    {
        // the domain of the attribute
        if (i.code) { lo = std::max<int64_t>(0, i.imin()); hi = std::min<int64_t>(hi, i.imax()); if (lo > hi) throw Unsup("associated field domain"); }
    } else {
        int64_t a = std::max<int64_t>(0, i.imin() - i.bit_ref), b = std::min<int64_t>((int64_t)hi, i.imax() - i.bit_ref);
        if (no_missing(i.code)) { can_miss = false; if (!compressed) b = std::min<int64_t>(ones, i.imax() - i.bit_ref); }
        if (X(i.code) == 31 && F(i.code) == 0 && f == PLAIN && compressed && !no_missing(i.code)) b = std::min<int64_t>(b, (int64_t)ones - 1);
        if (a > b) { if (!can_miss || f != PLAIN) throw Unsup("no encodable value"); lo = 1; hi = 0; }
        else { lo = a; hi = b; }
    }
    if (f == FACTOR || f == BITMAP_FACTOR)
    {
        uniform = true; can_miss = false;
        if (compressed && bits == 1) hi = 0;
        uint64_t want;
        if (f == BITMAP_FACTOR)
        {
            uint64_t avail = 0; for (auto& v : *w.out[0]) if (F(v.info.code) == 0) ++avail;
            if (!avail) throw Unsup("no variables for a bitmap");
            want = r.chance(1, 2) ? avail : 1 + r.below(avail);
            want = std::min<uint64_t>(want, max_factor > 255 ? 6000 : 300);
            lo = 1;
        }
        else if (w.bm_active() && r.chance(4, 5)) want = r.chance(3, 4) ? w.bm_left() : r.below(w.bm_left() + 1);
        else want = min_factor + r.below(max_factor - min_factor + 1);
        if (lo > hi) throw Unsup("no factor");
        hi = std::min(hi, want); lo = std::min(want, hi);
        if (f == BITMAP_FACTOR && lo == 0) throw Unsup("no factor");
    }
    if (f == SIG)
    {
        uniform = true;
        static const unsigned sigs[] = {1, 1, 2, 6, 7, 8, 8, 21, 0, 5, 12, 40, 1, 2, 6, 7, 8, 21, 3, 4, 9, 20, 22, 62};
        res.assign(N, r.chance(1, 12) ? MISSING : sigs[r.below(r.chance(1, 2) ? 12 : 24)]);
        if (res[0] == 0) res.assign(N, 1);
    }
    else for (unsigned c = 0; c < N; ++c)
    {
        if (c && uniform) { res[c] = res[0]; continue; }
        if (lo > hi || (can_miss && r.chance(1, miss))) { res[c] = MISSING; continue; }
        switch (r.below(6))
        {
            case 0: res[c] = lo; break;
            case 1: res[c] = hi; break;
            case 2: res[c] = lo + r.below(std::min<uint64_t>(hi - lo + 1, 16)); break;
            case 3: res[c] = hi - r.below(std::min<uint64_t>(hi - lo + 1, 16)); break;
            default: res[c] = r.range(lo, hi); break;
        }
    }
    // Compressed columns are often constant or close to each other
    if (compressed && !uniform && N > 1)
        switch (r.below(4))
        {
            case 0: res.assign(N, res[0]); break;
            case 1: if (res[0] != MISSING) for (unsigned c = 1; c < N; ++c) if (res[c] != MISSING) res[c] = std::min(hi, res[0] + r.below(9)); break;
            default: break;
        }
    if (!compressed) { if (res[0] == MISSING) data.ones(bits); else data.put(res[0], bits); return res; }
    // base, difference width, differences
    bool any = false, all_same = true; uint64_t mn = ~0ull, mx = 0;
    for (unsigned c = 0; c < N; ++c)
    {
        if (res[c] != res[0]) all_same = false;
        if (res[c] != MISSING) { any = true; mn = std::min(mn, res[c]); mx = std::max(mx, res[c]); }
    }
    if (all_same && (uniform || !r.chance(1, 5)))
    {
        if (any) data.put(res[0], bits); else data.ones(bits);
        data.put(0, 6);
        return res;
    }
    if (!any) { mn = mx = ones ? r.below(ones) : 0; if (!ones) throw Unsup("no base"); }
    // any base not above the minimum will do
    uint64_t base = r.chance(1, 3) && mn ? mn - r.below(std::min<uint64_t>(mn, 20) + 1) : mn;
    if (base == ones) throw Unsup("base cannot be missing");
    unsigned need = bits_for(mx - base + 1);
    if (need > 32) throw Unsup("differences too wide");
    unsigned nb = r.chance(1, 4) ? std::min(32u, need + (unsigned)r.below(4)) : need;
    if (!nb) nb = 1;
    // A missing value is a difference of all ones, or one that adds up to a value of all ones
    bool by_sum = (f == PLAIN || f == ATTR) && can_miss && r.chance(1, 4);
    if (by_sum && bits_for(ones - base + 1) <= 32) nb = std::max(nb, bits_for(ones - base + 1));
    data.put(base, bits); data.put(nb, 6);
    for (unsigned c = 0; c < N; ++c)
        if (res[c] != MISSING) data.put(res[c] - base, nb);
        else if (by_sum && nb >= bits_for(ones - base + 1) && r.chance(3, 4)) { data.put(ones - base, nb); w.stat("compressed-missing-by-sum"); }
        else data.ones(nb);
    w.stat("compressed-diffs");
    return res;
}

std::vector<std::string> GenSrc::str(Walker& w, unsigned chars, bool raw)
{
    std::vector<std::string> res(N);
    auto make = [&](unsigned n) {
        std::string s(n, ' ');
        unsigned style = r.below(7);
        unsigned used = style == 0 ? n : style == 1 ? (n ? 1 : 0) : r.below(n + 1);
        if (style == 6)
        {
            // Any byte, with many of those that look like padding
            bool text = false;
            for (unsigned i = 0; i < used; ++i)
            {
                unsigned char ch = r.chance(1, 3) ? 1 : r.chance(1, 3) ? 0xff : 1 + r.below(255);
                if (ch != 0xff) text = true;
                s[i] = ch;
            }
            if (used && !text) s[r.below(used)] = 1;
            w.stat("strings-of-any-bytes");
            return s;
        }
        if (!raw && used && r.chance(1, 4))
        {
            // Padded with zeros instead of spaces
            for (unsigned i = used; i < n; ++i) s[i] = 0;
            w.stat("strings-zero-padded");
        }
        for (unsigned i = 0; i < used; ++i)
            s[i] = style == 2 && i == 0 ? ' ' : r.chance(1, 40) ? 0xa0 + 1 + r.below(90) : 0x20 + r.below(95);
        return s;
    };
    if (!compressed)
    {
        bool missing = !raw && r.chance(1, miss);
        res[0] = missing ? std::string(chars, (char)0xff) : make(chars);
        for (unsigned char ch : res[0]) data.put(ch, 8);
        return res;
    }
    if (r.chance(1, 3))
    {
        std::string s = r.chance(1, miss) ? std::string(chars, (char)0xff) : make(chars);
        for (auto& x : res) x = s;
        for (unsigned char ch : s) data.put(ch, 8);
        data.put(0, 6);
        return res;
    }
    if (chars == 0) throw Unsup("empty string");
    unsigned k = std::min(chars, 63u);
    if (r.chance(1, 4)) k = 1 + r.below(k);
    for (unsigned i = 0; i < chars; ++i) data.put(0x20, 8);
    data.put(k, 6);
    for (auto& x : res)
    {
        x = r.chance(1, miss) ? std::string(k, (char)0xff) : make(k);
        for (unsigned char ch : x) data.put(ch, 8);
    }
    w.stat("compressed-strings");
    return res;
}

std::string GenSrc::bin(Walker&, unsigned bits)
{
    if (r.chance(1, miss)) { data.ones(bits); return ""; }
    std::string s; bool ones = true;
    unsigned left = bits;
    while (left)
    {
        unsigned n = std::min(left, 8u);
        unsigned v = r.next() & ((1u << n) - 1);
        if (r.chance(1, 6)) v = 0; // embedded zeros
        if (left == n && ones && v == (1u << n) - 1) v ^= 1;
        if (v != (1u << n) - 1) ones = false;
        s += (char)v; data.put(v, n); left -= n;
    }
    return s;
}
bool GenSrc::bit(Walker&)
{
    bool v = r.chance(2, 5);
    data.put(v, 1);
    if (compressed) data.put(0, 6);
    return v;
}
int64_t GenSrc::refval(Walker&, const BInfo& i, unsigned bits)
{
    uint64_t lim = std::min<uint64_t>((uint64_t(1) << (bits - 1)) - 1, 1000000000);
    uint64_t mag = r.chance(1, 5) ? lim : r.chance(1, 4) ? r.below(std::min<uint64_t>(lim + 1, 10)) : r.below(lim + 1);
    bool neg = mag && r.chance(1, 2);
    data.put(neg ? mag | (uint64_t(1) << (bits - 1)) : mag, bits);
    return neg ? -(int64_t)mag : (int64_t)mag;
}

// ---------------------------------------------------------------- reading

uint64_t BitSrc::get(unsigned n)
{
    if (pos + n > end) throw BadData("data exhausted");
    uint64_t v = 0;
    for (unsigned k = 0; k < n; ++k, ++pos) v = (v << 1) | (((unsigned char)m[pos / 8] >> (7 - pos % 8)) & 1);
    return v;
}
static uint64_t ones_of(unsigned bits) { return bits >= 64 ? ~0ull : (uint64_t(1) << bits) - 1; }
std::vector<uint64_t> BitSrc::num(Walker&, const BInfo& i, unsigned bits, Field f)
{
    std::vector<uint64_t> res(N);
    if (bits > 32) throw Unsup("wide number");
    if (!compressed)
    {
        uint64_t v = get(bits);
        bool nm = f != AF && no_missing(i.code);
        res[0] = v == ones_of(bits) && !nm ? MISSING : v;
        return res;
    }
    uint64_t base = get(bits); unsigned nb = get(6);
    bool missing = base == ones_of(bits);
    if (f == FACTOR || f == BITMAP_FACTOR || f == SIG)
    {
        if (nb) throw BadData("factor differs across subsets");
        res.assign(N, missing ? MISSING : base);
        return res;
    }
    if (missing && nb) throw BadData("missing base with differences");
    if (nb > 32) throw BadData("difference too wide");
    for (auto& x : res)
    {
        if (missing) { x = MISSING; continue; }
        if (!nb) { x = base; continue; }
        uint64_t dv = get(nb);
        if (dv == ones_of(nb)) x = MISSING;
        else
        {
            x = base + dv;
            if (x == ones_of(bits) && (f == PLAIN || f == ATTR) && !no_missing(i.code)) { x = MISSING; continue; }
            if (x >= ones_of(bits)) throw Unsup("base plus difference does not fit the field");
        }
    }
    return res;
}
std::vector<std::string> BitSrc::str(Walker&, unsigned chars, bool)
{
    std::vector<std::string> res(N);
    auto rd = [&](unsigned n) { std::string s; while (n--) s += (char)get(8); return s; };
    std::string base = rd(chars);
    if (!compressed) { res[0] = base; return res; }
    unsigned nb = get(6);
    if (!nb) { res.assign(N, base); return res; }
    if (nb > chars) throw BadData("string differences longer than the field");
    for (auto& x : res) x = rd(nb);
    return res;
}
std::string BitSrc::bin(Walker&, unsigned bits)
{
    std::string s; bool ones = true; unsigned left = bits;
    while (left) { unsigned n = std::min(left, 8u); unsigned v = get(n); if (v != (1u << n) - 1) ones = false; s += (char)v; left -= n; }
    return ones ? "" : s;
}
bool BitSrc::bit(Walker&)
{
    bool v = get(1);
    if (compressed && get(6)) throw BadData("bitmap differs across subsets");
    return v;
}
int64_t BitSrc::refval(Walker&, const BInfo&, unsigned bits)
{
    uint64_t v = get(bits);
    int64_t mag = v & ((uint64_t(1) << (bits - 1)) - 1);
    return (v >> (bits - 1)) & 1 ? -mag : mag;
}

// ---------------------------------------------------------------- messages

std::string assemble(const BufrHeader& h, unsigned subsets, bool compressed, const std::vector<Code>& dd, const std::string& data, bool canonical, vf::Rng* r)
{
    std::string m = "BUFR"; m += std::string(3, 0); m += (char)h.edition;
    auto b1 = [&](unsigned v) { m += (char)v; };
    auto b2 = [&](unsigned v) { m += (char)(v >> 8); m += (char)v; };
    size_t p = m.size();
    m += std::string(3, 0);
    b1(h.mtn);
    bool opt = !h.opt.empty();
    if (h.edition == 4) { b2(h.centre); b2(h.subcentre); b1(h.usn); b1(opt ? 0x80 : 0); b1(h.cat); b1(h.subcat); b1(h.lsubcat); b1(h.mtv); b1(h.mtvl); b2(h.year); b1(h.month); b1(h.day); b1(h.hour); b1(h.minute); b1(h.second); }
    else { b1(h.subcentre); b1(h.centre); b1(h.usn); b1(opt ? 0x80 : 0); b1(h.cat); b1(h.lsubcat); b1(h.mtv); b1(h.mtvl); b1(h.year == 2000 ? 100 : h.year % 100); b1(h.month); b1(h.day); b1(h.hour); b1(h.minute); b1(canonical || !r ? h.year / 100 : r->below(256)); }
    if (!canonical && r && r->chance(1, 4)) m += std::string(r->below(3) * 2, 0);   // local use octets
    put3(m, p, m.size() - p);
    if (opt)
    {
        p = m.size(); m += std::string(4, 0); m += h.opt;
        if (canonical && h.opt.size() % 2) m += (char)0;
        put3(m, p, m.size() - p);
    }
    p = m.size();
    m += std::string(4, 0); b2(subsets);
    b1((canonical || !r || r->chance(3, 4) ? 0x80 : 0) | (compressed ? 0x40 : 0));
    for (auto c : dd) b2(c);
    if (canonical || !r || h.edition < 4 || r->chance(1, 2)) m += (char)0;
    put3(m, p, m.size() - p);
    p = m.size();
    m += std::string(4, 0); m += data;
    if (canonical && m.size() % 2) m += (char)0;
    if (!canonical && r && r->chance(1, 5)) m += std::string(1 + r->below(3), 0);
    put3(m, p, m.size() - p);
    m += "7777";
    put3(m, 4, m.size());
    return m;
}

const std::vector<unsigned>& wmo_versions()
{
    static std::vector<unsigned> res;
    if (res.empty())
        for (unsigned v = 0; v < 100; ++v)
        {
            std::string n = tables_dir() + vf::fmt("/B0000000000000%03u000.txt", v);
            std::string dn = tables_dir() + vf::fmt("/D0000000000000%03u000.txt", v);
            FILE* f = fopen(n.c_str(), "r"); FILE* g = fopen(dn.c_str(), "r");
            if (f && g && load_bufr_b(n).ok && load_d(dn).ok) res.push_back(v);
            if (f) fclose(f);
            if (g) fclose(g);
        }
    if (res.empty()) throw std::runtime_error("no WMO tables found");
    return res;
}

static bool usable(Code c, const TableSet& t, std::set<Code>& seen, unsigned& size, int depth)
{
    if (depth > 8 || size > 150) return false;
    switch (F(c))
    {
        case 0: ++size; return t.b->b.count(c);
        case 1: { unsigned n = Y(c); size += n ? n : 2; return n < 12; }
        case 2: { unsigned x = X(c), y = Y(c); if (x == 22 || x == 23 || x == 37 || x == 36 || x == 5 || x == 3 || x == 6 || x == 4) return false; (void)y; return x >= 1 && x <= 8; }
        case 3:
        {
            auto e = t.d->d.find(c);
            if (e == t.d->d.end()) return false;
            for (auto k : e->second) if (!usable(k, t, seen, size, depth + 1)) return false;
            return true;
        }
    }
    return false;
}
const std::vector<Code>& usable_d(unsigned mtv)
{
    static std::map<unsigned, std::vector<Code>> cache;
    auto i = cache.find(mtv);
    if (i != cache.end()) return i->second;
    auto& res = cache[mtv];
    TableSet t = wmo_bufr(mtv);
    for (auto& e : t.d->d) { std::set<Code> seen; unsigned size = 0; if (usable(e.first, t, seen, size, 0)) res.push_back(e.first); }
    return res;
}

namespace {

struct TmplGen
{
    vf::Rng& r; const TableSet& t; unsigned mtv; bool compressed; const GenOpts& o;
    std::vector<Code> numeric, strings, tables, attrs;
    bool in_c04 = false;
    unsigned uses = 0;
    int max_depth = 2;
    TmplGen(vf::Rng& r, const TableSet& t, unsigned mtv, bool c, const GenOpts& o) : r(r), t(t), mtv(mtv), compressed(c), o(o) {}

    void index()
    {
        static std::map<unsigned, TmplGen*> cache;
        for (auto& e : t.b->order)
        {
            if (X(e.code) == 31) continue;
            if (e.kind == STR) { if (e.bit_len && e.bit_len % 8 == 0 && e.bit_len <= 800) strings.push_back(e.code); }
            else if (e.bit_len >= 1 && e.bit_len <= 32)
            {
                // leave room for at least one value
                if (e.imin() > e.imax()) continue;
                if (e.table_kind()) tables.push_back(e.code); else numeric.push_back(e.code);
                if (X(e.code) == 33 && e.code != mk(0,33,2) && e.code != mk(0,33,3) && e.code != mk(0,33,50) && e.code != mk(0,33,40) && e.code != mk(0,33,41)) attrs.push_back(e.code);
            }
        }
    }
    Code elem()
    {
        // Factors can also be plain values
        if (o.factors && r.chance(1, 20)) { Code c = mk(0, 31, r.pick(std::vector<unsigned>{0, 1, 2, 11, 12})); if (t.b->b.count(c)) return c; }
        switch (r.below(10))
        {
            case 0: return r.pick(tables);
            case 1: case 2: return r.pick(strings);
            case 3: { static const Code cs[] = {mk(0,1,1), mk(0,1,2), mk(0,12,101), mk(0,10,4), mk(0,11,2), mk(0,5,1), mk(0,6,1), mk(0,4,1), mk(0,20,11)};
                      Code c = cs[r.below(9)]; if (t.b->b.count(c)) return c; return r.pick(numeric); }
            default: return r.pick(numeric);
        }
    }
    static void add(std::vector<Code>& a, const std::vector<Code>& b) { a.insert(a.end(), b.begin(), b.end()); }

    std::vector<Code> items(unsigned n, int depth)
    {
        std::vector<Code> res;
        for (unsigned i = 0; i < n; ++i) add(res, item(depth));
        return res;
    }
    std::vector<Code> item(int depth)
    {
        unsigned k = r.below(o.force_plain ? 9 : 18);
        std::vector<Code> res, sub;
        switch (k)
        {
            default: case 0: case 1: case 2: res.push_back(elem()); return res;
            case 5:
                if (usable_d(mtv).empty() || in_c04) { res.push_back(elem()); return res; }
                res.push_back(r.pick(usable_d(mtv)));
                return res;
            case 6:
                if (depth > max_depth) { res.push_back(elem()); return res; }
                sub = items(1 + r.below(3), depth + 1);
                if (sub.size() > 63) return sub;
                res.push_back(mk(1, sub.size(), 1 + r.below(depth ? 3 : 5)));
                add(res, sub);
                return res;
            case 7: case 8:
                if (depth > max_depth) { res.push_back(elem()); return res; }
                sub = items(1 + r.below(3), depth + 1);
                if (sub.size() > 63) return sub;
                res.push_back(mk(1, sub.size(), 0));
                res.push_back(mk(0, 31, r.chance(1, 6) ? 0 : r.chance(1, 4) ? 2 : 1));
                add(res, sub);
                return res;
            case 9: // width
                res.push_back(mk(2, 1, 128 + (r.chance(1, 12) ? r.range(-30, 30) : r.range(-4, 8)))); if (Y(res[0]) == 128) res[0] = mk(2, 1, 130);
                add(res, items(1 + r.below(3), depth + 1));
                if (!r.chance(1, 6)) res.push_back(mk(2, 1, 0));
                return res;
            case 10: // scale
                res.push_back(mk(2, 2, 128 + (r.chance(1, 12) ? r.range(-17, 17) : r.range(-3, 4))));
                add(res, items(1 + r.below(3), depth + 1));
                if (!r.chance(1, 6)) res.push_back(mk(2, 2, 0));
                return res;
            case 11: // scale, reference and width
                res.push_back(mk(2, 7, 1 + r.below(r.chance(1, 10) ? 10 : 3)));
                add(res, items(1 + r.below(2), depth + 1));
                if (!r.chance(1, 6)) res.push_back(mk(2, 7, 0));
                return res;
            case 12: // string width
                res.push_back(mk(2, 8, 1 + r.below(r.chance(1, 20) ? 255 : r.chance(1, 5) ? 70 : 20)));
                res.push_back(r.pick(strings));
                add(res, items(r.below(3), depth + 1));
                if (!r.chance(1, 6)) res.push_back(mk(2, 8, 0));
                return res;
            case 13: // reference values
            {
                if (compressed || depth > 1) { res.push_back(elem()); return res; }
                unsigned bits = 4 + r.below(24);
                if (r.chance(1, 10)) bits = 32;
                res.push_back(mk(2, 3, bits));
                std::vector<Code> cs; unsigned n = 1 + r.below(3);
                for (unsigned i = 0; i < n; ++i) { Code c = r.pick(numeric); if (std::find(cs.begin(), cs.end(), c) == cs.end()) cs.push_back(c); }
                add(res, cs);
                res.push_back(mk(2, 3, 255));
                add(res, cs);   // use them straight away
                add(res, items(r.below(2), depth + 1));
                if (r.chance(1, 2)) res.push_back(cs[r.below(cs.size())]);
                res.push_back(mk(2, 3, 0));
                if (r.chance(1, 3)) res.push_back(cs[r.below(cs.size())]);
                return res;
            }
            case 14: // associated fields
                if (in_c04) { res.push_back(elem()); return res; }
                in_c04 = true;
                res.push_back(mk(2, 4, 1 + r.below(r.chance(1, 6) ? 32 : 8)));
                res.push_back(mk(0, 31, 21));
                add(res, items(1 + r.below(3), depth + 1));
                res.push_back(mk(2, 4, 0));
                in_c04 = false;
                return res;
            case 15: // character data
                if (compressed) { res.push_back(elem()); return res; }
                res.push_back(mk(2, 5, 1 + r.below(r.chance(1, 8) ? 255 : 20)));
                return res;
            case 16: // local descriptors
            {
                if (in_c04) { res.push_back(elem()); return res; }
                Code c = r.chance(1, 3) ? elem() : mk(0, 48 + r.below(16), 192 + r.below(64));
                bool known = t.b->b.count(c);
                unsigned bits = known && r.chance(3, 4) ? t.b->b.at(c).bit_len : 1 + r.below(r.chance(1, 4) ? 200 : 40);
                if (compressed && !known) { res.push_back(elem()); return res; }
                if (!bits || bits > 255) bits = 8;
                res.push_back(mk(2, 6, bits));
                res.push_back(c);
                return res;
            }
        }
    }
    // Something that takes a lot of data
    std::vector<Code> big_part()
    {
        std::vector<Code> res, sub;
        for (unsigned n = r.chance(1, 4) ? 40 + r.below(24) : 1 + r.below(4); n; --n) sub.push_back(elem());
        switch (r.below(4))
        {
            case 0: res.push_back(mk(1, sub.size(), 100 + r.below(156))); add(res, sub); break;
            case 1: for (unsigned n = 200 + r.below(400); n; --n) res.push_back(elem()); break;
            default: res.push_back(mk(1, sub.size(), 0)); res.push_back(mk(0, 31, r.chance(1, 3) ? 1 : 2)); add(res, sub); break;
        }
        return res;
    }
    std::vector<Code> bitmap_part(bool big = false)
    {
        std::vector<Code> res;
        unsigned n = 1 + r.below(3);
        bool reuse_ok = false;
        for (unsigned i = 0; i < n; ++i)
        {
            bool subst = r.chance(1, 3);
            res.push_back(mk(2, subst ? 23 : 22, 0));
            if (reuse_ok && r.chance(1, 3)) res.push_back(mk(2, 37, 0));
            else
            {
                if (r.chance(1, 2)) res.push_back(mk(2, 36, 0));
                if (r.chance(1, big ? 6 : 2)) res.push_back(mk(1, 1, 1 + r.below(big ? 255 : 12)));
                else { res.push_back(mk(1, 1, 0)); res.push_back(mk(0, 31, r.chance(big ? 4 : 1, 5) ? 2 : 1)); }
                res.push_back(mk(0, 31, 31));
            }
            reuse_ok = true;
            for (unsigned k = 0, m = r.below(3); k < m; ++k) { Code c = elem(); if (X(c) != 33) res.push_back(c); }
            Code what = subst ? mk(2, 23, 255) : r.pick(attrs);
            switch (r.below(3))
            {
                case 0: for (unsigned k = 0, m = 1 + r.below(4); k < m; ++k) res.push_back(what); break;
                case 1: res.push_back(mk(1, 1, 1 + r.below(6))); res.push_back(what); break;
                case 2: res.push_back(mk(1, 1, 0)); res.push_back(mk(0, 31, big ? 2 : 1)); res.push_back(what); break;
            }
            if (r.chance(1, 8)) { res.push_back(mk(2, 37, 255)); reuse_ok = false; }
        }
        return res;
    }
};

}

GenMsg gen_bufr(vf::Rng& r, const GenOpts& o)
{
    struct Cached { TmplGen* g; };
    static std::map<unsigned, TmplGen*> indexes;
    const unsigned big = o.big && r.chance(1, 100) ? r.chance(2, 3) ? 1 : 2 : 0; // a large template, or many subsets
    for (unsigned attempt = 0; attempt < 4000; ++attempt)
    {
        GenMsg g;
        g.compressed = o.allow_compressed && r.chance(2, 5);
        g.h.edition = 2 + r.below(3);
        g.h.mtv = r.chance(1, 3) ? wmo_versions()[r.below(wmo_versions().size())] : wmo_versions().back();
        TableSet t = wmo_bufr(g.h.mtv);
        TmplGen*& cached = indexes[g.h.mtv];
        if (!cached) { static GenOpts dummy; static vf::Rng dr(1); cached = new TmplGen(dr, *new TableSet(t), g.h.mtv, false, dummy); cached->index(); }
        TmplGen tg(r, t, g.h.mtv, g.compressed, o);
        tg.numeric = cached->numeric; tg.strings = cached->strings; tg.tables = cached->tables; tg.attrs = cached->attrs;
        if (tg.numeric.empty() || tg.strings.empty() || tg.tables.empty() || tg.attrs.empty()) continue;
        // Now and then, something large
        if (r.chance(1, 12)) tg.max_depth = 5;
        g.dd = tg.items(big ? r.below(3) : 1 + r.below(o.max_items), 0);
        const bool huge = big == 1 && r.chance(1, 8); // factors that do not fit 15 bits
        if (huge) { g.dd.clear(); if (r.chance(1, 2)) g.dd.push_back(tg.elem()); TmplGen::add(g.dd, {mk(1, 1, 0), mk(0, 31, 2), tg.elem()}); }
        else if (big == 1) TmplGen::add(g.dd, tg.big_part());
        if (g.dd.empty()) g.dd.push_back(tg.elem());
        if (!o.force_plain && r.chance(2, 5)) TmplGen::add(g.dd, tg.bitmap_part(big));
        if (g.dd.size() > (big ? 1000 : 250)) continue;
        g.subsets = r.chance(1, 12) ? 1 + r.below(40) : 1 + r.below(4);
        if (big == 1) g.subsets = 1 + r.below(2);
        if (big > 1) { if (g.dd.size() > 60) continue; g.subsets = 200 + r.below(400); }
        if (big > 1 && r.chance(1, 20)) { g.subsets = r.chance(1, 2) ? 65535 : 32767 + r.below(3); g.dd.clear(); for (unsigned n = 1 + r.below(2); n; --n) g.dd.push_back(tg.elem()); }
        if (r.chance(1, 8)) for (unsigned i = 0, n = 1 + r.below(9); i < n; ++i) g.h.opt += (char)r.next();
        // The choice of tables is not the point here
        g.h.centre = r.chance(1, 2) ? 0 : 201; g.h.subcentre = r.below(3); g.h.usn = r.below(256);
        g.h.cat = r.below(256); g.h.subcat = r.below(256); g.h.lsubcat = r.below(256);
        g.h.year = 1951 + r.below(100); g.h.month = 1 + r.below(12); g.h.day = 1 + r.below(28); g.h.hour = r.below(24); g.h.minute = r.below(60); g.h.second = r.below(60);
        // data
        BitW data; BitW enc;
        std::vector<BitW> cols(g.compressed ? g.subsets : 1);
        g.expected.resize(g.subsets);
        try
        {
            GenSrc src(r, data);
            src.max_factor = r.chance(1, 6) ? 9 : 3;
            static const unsigned ms[] = {2, 8, 8, 30, 1000000};
            src.miss = ms[r.below(5)];
            src.compressed = g.compressed;
            unsigned long left = big ? 80000 : 3000;
            if (big == 1) src.max_factor = r.chance(1, 4) ? 255 : r.chance(1, 3) ? 256 + r.below(50) : 500 + r.below(4000);
            if (huge) { src.min_factor = 32768; src.max_factor = 65534; left = 200000; }
            if (g.compressed)
            {
                src.N = g.subsets;
                Walker w(*t.b, *t.d, src);
                w.stats = &g.stats; w.undef_attrs = o.undef_attrs; w.max_steps = left / g.subsets + 200;
                if (o.log_steps) { g.steps.resize(1); w.log = &g.steps[0]; }
                for (unsigned i = 0; i < g.subsets; ++i) { w.out.push_back(&g.expected[i]); w.enc.push_back(&cols[i]); }
                w.run(g.dd);
                g.encode_ambiguous |= w.encode_ambiguous;
                for (auto& c : cols) for (unsigned k = 0; k < c.nbits; ++k) enc.put(((unsigned char)c.out[k / 8] >> (7 - k % 8)) & 1, 1);
            }
            else for (unsigned i = 0; i < g.subsets; ++i)
            {
                Walker w(*t.b, *t.d, src);
                w.stats = &g.stats; w.undef_attrs = o.undef_attrs; w.max_steps = left;
                if (o.log_steps) { g.steps.resize(g.subsets); w.log = &g.steps[i]; }
                w.out.push_back(&g.expected[i]); w.enc.push_back(&enc);
                w.run(g.dd);
                left -= std::min(left, w.steps);
                g.encode_ambiguous |= w.encode_ambiguous;
            }
        } catch (Unsup&) { continue; } catch (BadData&) { continue; }
        if (data.out.size() > (big ? 1000000 : 20000) || enc.out.size() > (big ? 2000000 : 60000)) continue;
        if (big) g.stats["big"]++;
        if (g.subsets > 255) g.stats["subsets>255"]++;
        if (g.dd.size() > 255) g.stats["descriptors>255"]++;
        if (data.out.size() > 65535) g.stats["data>64K"]++;
        g.data = data.out; g.data_bits = data.nbits;
        g.msg = assemble(g.h, g.subsets, g.compressed, g.dd, data.out, false, &r);
        g.encoded = assemble(g.h, g.subsets, false, g.dd, enc.out, true);
        uint64_t h = vf::fnv(g.dd.data(), g.dd.size() * 2, g.compressed + 2);
        for (auto& s : g.expected) { size_t n = s.size(); h = vf::fnv(&n, sizeof n, h); }
        g.shape = h;
        return g;
    }
    throw std::runtime_error("cannot generate a BUFR message");
}

}
