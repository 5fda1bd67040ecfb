#include "ref.h"
#include <algorithm>
#include <cmath>
#include <climits>
#include <dirent.h>

namespace ref {

std::string fxy(Code c) { return vf::fmt("%c%02u%03u", "BRCD"[F(c)], X(c), Y(c)); }
const char* kind_name(Kind k) { switch (k) { case STR: return "string"; case BIN: return "binary"; case INT: return "integer"; case DEC: return "decimal"; } return "?"; }

std::string BInfo::str() const
{
    return vf::fmt("%s %s unit=%s scale=%d ref=%lld bits=%u len=%u", fxy(code).c_str(), kind_name(kind), unit.c_str(), scale, (long long)bit_ref, bit_len, len);
}
static int64_t p10(unsigned n) { int64_t r = 1; while (n--) r *= 10; return r; }
int64_t BInfo::imin() const
{
    if (kind == STR || kind == BIN) return 0;
    if (len >= 10) return INT_MIN;
    int64_t dmin = -(p10(len) - 1);
    if (!bit_len) return dmin;
    return std::max(bit_ref, dmin);
}
int64_t BInfo::imax() const
{
    if (kind == STR || kind == BIN) return 0;
    if (len >= 10) return INT_MAX;
    int64_t dmax = p10(len) - 2;
    if (!bit_len) return dmax;
    // All ones is the missing value, except for class 31
    int64_t bmax = bit_ref + (int64_t(1) << bit_len) - (X(code) == 31 ? 1 : 2);
    return std::min(bmax, dmax);
}

static std::vector<std::string> lines_of(const std::string& path)
{
    std::vector<std::string> res;
    std::string data = vf::read_file(path), cur;
    for (char c : data) { if (c == '\n') { res.push_back(cur); cur.clear(); } else cur += c; }
    if (!cur.empty()) res.push_back(cur);
    return res;
}
// Columns are counted in characters, and files are encoded in UTF-8
size_t utf8_len(const std::string& s) { size_t n = 0; for (unsigned char c : s) n += (c & 0xc0) != 0x80; return n; }
size_t utf8_col(const std::string& s, size_t col)
{
    size_t i = 0;
    while (i < s.size() && col) { do ++i; while (i < s.size() && ((unsigned char)s[i] & 0xc0) == 0x80); --col; }
    return i;
}
std::string utf8_cut(std::string s, size_t bytes)
{
    if (s.size() <= bytes) return s;
    while (bytes && ((unsigned char)s[bytes] & 0xc0) == 0x80) --bytes;
    return s.substr(0, bytes);
}
static long num_at(const std::string& l, size_t col)
{
    size_t i = utf8_col(l, col); bool neg = false; long v = 0;
    while (i < l.size() && isspace((unsigned char)l[i])) ++i;
    if (i < l.size() && l[i] == '-') { neg = true; ++i; while (i < l.size() && isspace((unsigned char)l[i])) ++i; }
    while (i < l.size() && l[i] >= '0' && l[i] <= '9') v = v * 10 + (l[i++] - '0');
    return neg ? -v : v;
}
static std::string field(const std::string& l, size_t col, size_t n)
{
    size_t b = utf8_col(l, col), e = utf8_col(l, col + n);
    std::string r = l.substr(b, e - b);
    while (!r.empty() && isspace((unsigned char)r.back())) r.pop_back();
    return r;
}
static std::string norm_unit(const std::string& u)
{
    auto starts = [&](const char* p) { return u.compare(0, strlen(p), p) == 0; };
    if (starts("CODE TABLE") || starts("CODETABLE")) return "CODE TABLE";
    if (starts("FLAG TABLE") || starts("FLAGTABLE")) return "FLAG TABLE";
    return u;
}
static bool code_at(const std::string& l, Code& c)
{
    if (l.size() < 7) return false;
    for (int i = 2; i < 7; ++i) if (!isdigit((unsigned char)l[i])) return false;
    c = mk(0, (l[2] - '0') * 10 + (l[3] - '0'), (l[4] - '0') * 100 + (l[5] - '0') * 10 + (l[6] - '0'));
    return true;
}

const TableFile& load_bufr_b(const std::string& path)
{
    static std::map<std::string, TableFile> cache;
    auto i = cache.find(path);
    if (i != cache.end()) return i->second;
    TableFile& t = cache[path];
    t.path = path;
    for (auto& l : lines_of(path))
    {
        BInfo e;
        if (utf8_len(l) + 1 < 119 || !code_at(l, e.code)) { t.ok = false; break; }
        e.desc = field(l, 8, 64);
        e.unit = norm_unit(field(l, 73, 24));
        e.scale = num_at(l, 98);
        e.bit_ref = num_at(l, 102);
        e.bit_len = num_at(l, 115);
        if (e.unit == "CCITTIA5") { e.kind = STR; e.len = e.bit_len / 8; }
        else
        {
            e.kind = e.scale ? DEC : INT;
            // number of decimal digits needed for every value of bit_len bits
            e.len = 0; uint64_t v = e.bit_len >= 64 ? ~0ull : (uint64_t(1) << e.bit_len) - 1;
            while (v) { ++e.len; v /= 10; }
        }
        t.order.push_back(e);
        t.b[e.code] = e;
    }
    return t;
}

const TableFile& load_crex_b(const std::string& path)
{
    static std::map<std::string, TableFile> cache;
    auto i = cache.find(path);
    if (i != cache.end()) return i->second;
    TableFile& t = cache[path];
    t.path = path;
    for (auto& l : lines_of(path))
    {
        BInfo e;
        if (!code_at(l, e.code)) { t.ok = false; break; }
        if (utf8_len(l) + 1 < 157) { if (X(e.code) != 31) { t.ok = false; break; } continue; }
        e.desc = field(l, 8, 64);
        e.unit = norm_unit(field(l, 119, 24));
        e.scale = num_at(l, 143);
        e.len = num_at(l, 149);
        e.kind = e.unit == "CHARACTER" ? STR : e.scale ? DEC : INT;
        t.order.push_back(e);
        t.b[e.code] = e;
    }
    return t;
}

const DFile& load_d(const std::string& path)
{
    static std::map<std::string, DFile> cache;
    auto i = cache.find(path);
    if (i != cache.end()) return i->second;
    DFile& t = cache[path];
    t.path = path;
    auto parse = [](const std::string& s, size_t col, Code& c) {
        if (s.size() < col + 6) return false;
        static const std::string fs = "0123BRCD";
        size_t f = fs.find(s[col]);
        if (f == std::string::npos) return false;
        for (int k = 1; k < 6; ++k) if (!isdigit((unsigned char)s[col + k])) return false;
        c = mk(f % 4, (s[col + 1] - '0') * 10 + (s[col + 2] - '0'), (s[col + 3] - '0') * 100 + (s[col + 4] - '0') * 10 + (s[col + 5] - '0'));
        return true;
    };
    Code cur = 0; bool have = false; size_t want = 0;
    for (auto& l : lines_of(path))
    {
        Code c;
        if (l.size() > 1 && (l[1] == 'D' || l[1] == '3'))
        {
            if (have && t.d[cur].size() != want) t.ok = false;
            if (!parse(l, 1, cur)) { t.ok = false; break; }
            want = num_at(l, 7); have = true;
            size_t p = 7;
            while (p < l.size() && isspace((unsigned char)l[p])) ++p;
            while (p < l.size() && isdigit((unsigned char)l[p])) ++p;
            while (p < l.size() && isspace((unsigned char)l[p])) ++p;
            if (!parse(l, p, c)) { t.ok = false; break; }
            t.d[cur].clear();
            t.d[cur].push_back(c);
        } else {
            if (!have || !parse(l, 11, c)) { t.ok = false; break; }
            t.d[cur].push_back(c);
        }
    }
    if (!have || t.d[cur].size() != want) t.ok = false;
    return t;
}

std::string tables_dir() { return vf::repo() + "/tables"; }

std::vector<std::string> table_files(char type, const std::string& dir)
{
    std::string base = dir.empty() ? tables_dir() : dir;
    std::vector<std::string> res;
    DIR* d = opendir(base.c_str());
    if (!d) throw std::runtime_error("cannot list " + base);
    while (dirent* e = readdir(d))
    {
        std::string n = e->d_name;
        if (n.size() > 5 && n[0] == type && n.substr(n.size() - 4) == ".txt") res.push_back(base + "/" + n);
    }
    closedir(d);
    std::sort(res.begin(), res.end());
    return res;
}

TableSet wmo_bufr(unsigned mtv)
{
    std::string n = vf::fmt("0000000000000%03u000.txt", mtv);
    return TableSet{&load_bufr_b(tables_dir() + "/B" + n), &load_d(tables_dir() + "/D" + n)};
}

std::vector<std::string> split_bufr(const std::string& data)
{
    std::vector<std::string> res; size_t p = 0;
    while ((p = data.find("BUFR", p)) != std::string::npos)
    {
        if (p + 8 > data.size()) break;
        size_t n = ((unsigned char)data[p + 4] << 16) | ((unsigned char)data[p + 5] << 8) | (unsigned char)data[p + 6];
        if (n >= 8 && p + n <= data.size()) { res.push_back(data.substr(p, n)); p += n; }
        else p += 4;
    }
    return res;
}
std::vector<std::string> split_crex(const std::string& data)
{
    std::vector<std::string> res; size_t p = 0;
    while ((p = data.find("CREX++", p)) != std::string::npos)
    {
        size_t e = data.find("++\r\r\n7777", p);
        if (e == std::string::npos) break;
        res.push_back(data.substr(p, e + 9 - p));
        p = e + 9;
    }
    return res;
}

static std::vector<Msg> load_corpus(const std::string& sub, bool bufr)
{
    std::vector<Msg> res;
    std::vector<std::string> dirs{vf::repo() + "/testdata/" + sub};
    if (const char* v = getenv("VERIF_DIR")) dirs.push_back(std::string(v) + "/corpus/" + sub);
    for (auto& dir : dirs)
    {
        DIR* d = opendir(dir.c_str());
        if (!d) continue;
        std::vector<std::string> names;
        while (dirent* e = readdir(d)) { std::string n = e->d_name; if (n.size() > 5 && n.substr(n.size() - 5) == "." + sub) names.push_back(n); }
        closedir(d);
        std::sort(names.begin(), names.end());
        for (auto& n : names)
        {
            unsigned k = 0;
            std::string data = vf::read_file(dir + "/" + n);
            for (auto& m : bufr ? split_bufr(data) : split_crex(data))
            {
                if (k > 12) break;   // files of many similar messages
                res.push_back(Msg{n + "#" + std::to_string(k++), m});
            }
        }
    }
    if (res.empty()) throw std::runtime_error("empty corpus " + sub);
    return res;
}
const std::vector<Msg>& bufr_corpus() { static std::vector<Msg> c = load_corpus("bufr", true); return c; }
const std::vector<Msg>& crex_corpus() { static std::vector<Msg> c = load_corpus("crex", false); return c; }

double template_work(const std::vector<Code>& dd, const DFile* d, double delayed, int depth)
{
    if (depth > 30) return 1e30;
    double tot = 0;
    for (size_t i = 0; i < dd.size(); ++i)
    {
        Code c = dd[i];
        if (F(c) == 1)
        {
            double n = Y(c);
            size_t j = i + 1;
            if (!Y(c)) { n = delayed; if (j < dd.size() && F(dd[j]) == 0 && X(dd[j]) == 31) ++j; }
            std::vector<Code> sub;
            for (size_t k = 0; k < X(c) && j < dd.size(); ++k) sub.push_back(dd[j++]);
            tot += 1 + n * (1 + template_work(sub, d, delayed, depth + 1));
            i = j - 1;
        }
        else if (F(c) == 3)
        {
            auto e = d ? d->d.find(c) : std::map<Code, std::vector<Code>>::const_iterator();
            if (d && e != d->d.end()) tot += 1 + template_work(e->second, d, delayed, depth + 1);
            else tot += 1;
        }
        else tot += 1;
        if (tot > 1e30) return 1e30;
    }
    return tot;
}


void put3(std::string& s, size_t pos, unsigned v)
{
    if (pos + 3 > s.size()) return;
    s[pos] = v >> 16; s[pos + 1] = v >> 8; s[pos + 2] = v;
}
unsigned get3(const std::string& s, size_t pos)
{
    if (pos + 3 > s.size()) return 0;
    return ((unsigned char)s[pos] << 16) | ((unsigned char)s[pos + 1] << 8) | (unsigned char)s[pos + 2];
}
Layout layout(const std::string& m)
{
    Layout l;
    auto b = [&](size_t p) -> unsigned { return p < m.size() ? (unsigned char)m[p] : 0; };
    if (m.size() < 8 || m.compare(0, 4, "BUFR")) return l;
    l.edition = b(7);
    if (l.edition < 2 || l.edition > 4) return l;
    l.sec1 = 8;
    unsigned n1 = get3(m, 8);
    bool opt;
    if (l.edition == 4)
    {
        if (n1 < 22) return l;
        l.mtn = b(11); l.centre = b(12) * 256 + b(13); l.subcentre = b(14) * 256 + b(15);
        opt = b(17) & 0x80; l.mtv = b(21); l.mtvl = b(22);
    } else {
        if (n1 < 17) return l;
        l.mtn = b(11); l.subcentre = b(12); l.centre = b(13); opt = b(15) & 0x80; l.mtv = b(18); l.mtvl = b(19);
        if (l.edition == 2) { l.centre = b(12) * 256 + b(13); l.subcentre = 0; }
    }
    size_t p = 8 + n1;
    if (opt) { l.sec2 = p; unsigned n = get3(m, p); if (n < 4) return l; p += n; }
    l.sec3 = p; unsigned n3 = get3(m, p);
    if (n3 < 7 || p + n3 > m.size()) return l;
    l.subsets = b(p + 4) * 256 + b(p + 5);
    l.compressed = b(p + 6) & 0x40;
    for (unsigned i = 0; i < (n3 - 7) / 2; ++i) l.dd.push_back(b(p + 7 + i * 2) * 256 + b(p + 8 + i * 2));
    p += n3;
    l.sec4 = p; unsigned n4 = get3(m, p);
    if (n4 < 4 || p + n4 > m.size()) return l;
    l.end = p + n4;
    l.ok = true;
    return l;
}

static double reads(const std::vector<Code>& dd, const DFile* d, int depth)
{
    for (size_t i = 0; i < dd.size(); ++i)
    {
        if (F(dd[i]) == 0) return 1;
        if (F(dd[i]) == 3 && d && depth < 20) { auto e = d->d.find(dd[i]); if (e != d->d.end() && reads(e->second, d, depth + 1)) return 1; }
    }
    return 0;
}
static double swork(const std::vector<Code>& dd, const DFile* d, int depth)
{
    if (depth > 30) return 1e30;
    double tot = 0;
    for (size_t i = 0; i < dd.size(); ++i)
    {
        Code c = dd[i];
        tot += 1;
        if (F(c) == 1)
        {
            double n = Y(c);
            size_t j = i + 1;
            bool delayed = false;
            if (!n)
            {
                delayed = true;
                unsigned y = 2;
                if (j < dd.size()) { if (F(dd[j]) == 0 && X(dd[j]) == 31) y = Y(dd[j]); ++j; }
                n = y == 0 ? 1 : y == 2 || y == 12 ? 65535 : 255;
            }
            std::vector<Code> sub;
            for (size_t k = 0; k < X(c) && j < dd.size(); ++k) sub.push_back(dd[j++]);
            double w = swork(sub, d, depth + 1);
            // a body that reads data stops when data runs out
            if (delayed && reads(sub, d, 0)) n = 1;
            tot += n * w;
            i = j - 1;
        }
        else if (F(c) == 3 && d)
        {
            auto e = d->d.find(c);
            if (e != d->d.end()) tot += swork(e->second, d, depth + 1);
        }
        if (tot > 1e30) return 1e30;
    }
    return tot;
}
double silent_work(const std::vector<Code>& dd, const DFile* d) { return swork(dd, d, 0); }

}
