// C24: wrep-importtable, which turns the XML tables of WMO into table files
#include "cmp.h"
#include "varpool.h"
#include <wreport/vartable.h>
#include <wreport/dtable.h>
#include <wreport/opcodes.h>
#include <wreport/tableinfo.h>
#include <wreport/internals/tabledir.h>
#include <wreport/error.h>
#include <algorithm>
#include <dirent.h>
#include <fcntl.h>
#include <memory>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace wreport;
using ref::Code;
using vf::fmt;

namespace {

void put(const std::string& path, const std::string& data)
{
    FILE* f = fopen(path.c_str(), "wb");
    if (!f || fwrite(data.data(), 1, data.size(), f) != data.size() || fclose(f) != 0) throw std::runtime_error("cannot write " + path);
}
std::vector<std::string> ls(const std::string& d)
{
    std::vector<std::string> res;
    if (DIR* h = opendir(d.c_str()))
    {
        while (dirent* e = readdir(h)) if (strcmp(e->d_name, ".") && strcmp(e->d_name, "..")) res.push_back(e->d_name);
        closedir(h);
    }
    std::sort(res.begin(), res.end());
    return res;
}
struct Dir
{
    std::string path;
    Dir(vf::Ctx& c, const char* name)
    {
        static unsigned n = 0;
        const char* t = getenv("TMPDIR");
        path = fmt("%s/import-%d-%llu-%u-%s", t ? t : "/tmp", (int)getpid(), (unsigned long long)c.case_no, n++, name);
        if (mkdir(path.c_str(), 0700) != 0) throw std::runtime_error("cannot create " + path);
    }
    ~Dir() { for (auto& n : ls(path)) unlink((path + "/" + n).c_str()); rmdir(path.c_str()); }
};

// ---- Sources

// Text with its form in upper case
struct Text { std::string s, up; };
const Text letters[] = {{"\u00b0", "\u00b0"}, {"\u2030", "\u2030"}, {"\u00b3", "\u00b3"}, {"\u00e9", "\u00c9"}, {"\u03b1", "\u0391"}, {"\u00b7", "\u00b7"}, {"\u2013", "\u2013"}, {"\u00df", "SS"}};

struct BEntry
{
    Code code; std::string name; Text bunit, cunit; int scale = 0, cscale = 0; long refv = 0; unsigned bits = 0, chars = 0; bool crex = true;
};
std::string name(vf::Rng& r, size_t max)
{
    std::string s; size_t n = r.range(1, max);
    for (size_t i = 0; i < n; ++i)
    {
        if (r.chance(1, 40)) s += letters[r.below(8)].s;
        else { static const std::string abc = "abcdefghijklm nopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ 0123456789()-/%&<>'\".,;:*"; s += abc[r.below(abc.size())]; }
    }
    while (!s.empty() && s.back() == ' ') s.pop_back();
    return s.empty() ? "x" : s;
}
Text unit(vf::Rng& r, bool bufr)
{
    static const std::vector<std::string> bu = {"K", "m s-1", "m/s", "Code table", "CODE TABLE", "Flag table", "Numeric", "Pa", "degree true", "%", "CCITT IA5", "CCITT IA5", "Ccitt ia5", "CCITTIA5", "kg m-2", "a", "Common Code table C-1", "log (1/m2) for some thing"};
    static const std::vector<std::string> cu = {"K", "m s-1", "Code table", "Flag table", "CODE TABLE 3", "Numeric", "Pa", "Degree true", "%", "Character", "CHARACTER", "\t", "C", "g kg-1", "a", "common Code table C-11", "log (1/m2) for some thing"};
    Text t; t.s = r.pick(bufr ? bu : cu);
    if (t.s == "\t") t.s = "character";
    for (char ch : t.s) t.up += toupper((unsigned char)ch);
    if (r.chance(1, 6)) { auto& l = letters[r.below(8)]; if (r.chance(1, 2)) { t.s += l.s; t.up += l.up; } else { t.s = l.s + t.s; t.up = l.up + t.up; } }
    return t;
}
std::string esc(vf::Rng& r, const std::string& s)
{
    std::string o;
    for (size_t i = 0; i < s.size(); ++i)
    {
        unsigned char ch = s[i];
        if (ch == '&') o += r.chance(1, 4) ? "&#38;" : "&amp;";
        else if (ch == '<') o += "&lt;";
        else if (ch == '>') o += r.chance(1, 2) ? "&gt;" : ">";
        else if (ch == '"' && r.chance(1, 2)) o += "&quot;";
        else if (ch < 0x80 && r.chance(1, 200)) o += fmt("&#x%x;", ch);
        else if (ch < 0x80 && r.chance(1, 300)) { o += "<!-- x -->"; o += ch; }
        else o += ch;
    }
    return o;
}
std::string digits(Code k) { return fmt("%u%02u%03u", ref::F(k), ref::X(k), ref::Y(k)); }
std::string gap(vf::Rng& r) { return r.pick(std::vector<std::string>{"", "\n", "\n  ", "\r\n\t", " <!-- <FXY>000000</FXY> -->\n"}); }

struct Source
{
    std::vector<BEntry> b;
    std::map<Code, std::vector<Code>> bd, cd;
    std::string bxml, bdxml, cdxml;
    bool crex_loadable = true;
};
std::string header(vf::Rng& r) { return r.pick(std::vector<std::string>{"<?xml version=\"1.0\" encoding=\"UTF-8\"?>\n", "<?xml version=\"1.0\" encoding=\"utf-8\"?>", "<?xml version=\"1.0\"?>\r\n", ""}); }

std::string write_b(vf::Rng& r, std::vector<BEntry> list)
{
    for (size_t i = list.size(); i > 1; --i) if (r.chance(1, 2)) std::swap(list[i - 1], list[r.below(i)]);
    std::string el = r.pick(std::vector<std::string>{"BUFRCREX_31_0_0_TableB_en", "Exp_BUFRCREXTableB_E", "TableB"});
    std::string nm = r.chance(1, 2) ? "ElementName_en" : "ElementName_E";
    std::string x = header(r) + (r.chance(1, 2) ? "<dataroot>" : "<dataroot xmlns:od=\"urn:schemas-microsoft-com:officedata\" generated=\"2013-02-01T00:00:00\">");
    auto f = [&](const char* n, const std::string& v) { return gap(r) + "<" + n + ">" + esc(r, v) + "</" + n + ">"; };
    for (auto& e : list)
    {
        if (r.chance(1, 20)) x += gap(r) + "<Notes><FXY>012001</FXY><BUFR_Unit>K</BUFR_Unit></Notes>";
        x += gap(r) + "<" + el + ">";
        std::vector<std::string> fs;
        fs.push_back(f("FXY", digits(e.code)));
        fs.push_back(f("ClassNo", fmt("%02u", ref::X(e.code))));
        if (r.chance(1, 2)) fs.push_back(f("ClassName_en", "Anything"));
        fs.push_back(f(nm.c_str(), e.name));
        if (r.chance(1, 3)) fs.push_back(f("Note_en", "see note 3, 999999"));
        fs.push_back(f("BUFR_Unit", e.bunit.s));
        fs.push_back(f("BUFR_Scale", fmt("%d", e.scale)));
        fs.push_back(f("BUFR_ReferenceValue", fmt("%ld", e.refv)));
        fs.push_back(f("BUFR_DataWidth_Bits", fmt("%u", e.bits)));
        if (e.crex)
        {
            fs.push_back(f("CREX_Unit", e.cunit.s));
            fs.push_back(f("CREX_Scale", fmt("%d", e.cscale)));
            fs.push_back(f("CREX_DataWidth_Char", fmt("%u", e.chars)));
        }
        fs.push_back(f("Status", r.chance(1, 2) ? "Operational" : "Deprecated"));
        if (r.chance(1, 3)) for (size_t i = fs.size(); i > 1; --i) std::swap(fs[i - 1], fs[r.below(i)]);
        for (auto& s : fs) x += s;
        x += gap(r) + "</" + el + ">";
    }
    return x + gap(r) + "</dataroot>" + gap(r);
}
std::string write_d(vf::Rng& r, const std::map<Code, std::vector<Code>>& d)
{
    // One element for each member of each sequence: sequences may come in any
    // order and be interleaved
    std::vector<std::pair<Code, size_t>> next;
    for (auto& i : d) next.push_back({i.first, 0});
    for (size_t i = next.size(); i > 1; --i) if (r.chance(1, 3)) std::swap(next[i - 1], next[r.below(i)]);
    bool mixed = r.chance(1, 4);
    std::string el = r.pick(std::vector<std::string>{"BUFR_31_0_0_TableD_en", "Exp_BUFRTableD_E", "TableD"});
    std::string x = header(r) + "<dataroot>";
    auto ws = [&](const std::string& s) { return r.chance(1, 8) ? r.pick(std::vector<std::string>{" ", "\n", "\t "}) + s + r.pick(std::vector<std::string>{" ", "\n  ", ""}) : s; };
    while (!next.empty())
    {
        size_t k = mixed ? r.below(next.size()) : 0;
        auto& seq = d.at(next[k].first);
        if (r.chance(1, 20)) x += "<Notes><FXY1>301001</FXY1><FXY2>012001</FXY2></Notes>";
        x += gap(r) + "<" + el + ">" + gap(r);
        if (r.chance(1, 2)) x += "<Category>01</Category>";
        std::string a = "<FXY1>" + ws(digits(next[k].first)) + "</FXY1>", b = "<FXY2>" + ws(digits(seq[next[k].second])) + "</FXY2>";
        bool rev = r.chance(1, 10);
        x += (rev ? b : a) + gap(r);
        if (r.chance(1, 2)) x += "<Title_en>(A &amp; B 012001)</Title_en>";
        x += rev ? a : b;
        if (r.chance(1, 2)) x += "<ElementName_en>Something</ElementName_en><Status>Operational</Status>";
        x += gap(r) + "</" + el + ">";
        if (++next[k].second == seq.size()) next.erase(next.begin() + k);
    }
    return x + gap(r) + "</dataroot>" + gap(r);
}
std::map<Code, std::vector<Code>> gen_d(vf::Rng& r)
{
    std::map<Code, std::vector<Code>> d;
    for (unsigned i = 0, n = r.chance(1, 10) ? r.range(60, 200) : r.range(1, 20); i < n; ++i)
    {
        std::vector<Code> s;
        for (unsigned k = 0, m = r.chance(1, 12) ? r.range(9, 99) : r.range(1, 8); k < m; ++k)
            s.push_back(ref::mk(r.chance(1, 2) ? 0 : r.below(4), r.below(64), r.below(256)));
        d[ref::mk(3, r.below(64), r.below(256))] = s;
    }
    return d;
}
Source gen(vf::Rng& r)
{
    Source s;
    std::set<Code> used;
    bool all_crex = r.chance(3, 4);
    for (unsigned i = 0, n = r.chance(1, 10) ? r.range(100, 400) : r.range(1, 40); i < n; ++i)
    {
        BEntry e; e.code = ref::mk(0, r.chance(1, 8) ? 31 : r.below(64), r.below(256));
        if (!used.insert(e.code).second) continue;
        e.name = name(r, r.chance(1, 4) ? 90 : 30);
        e.bunit = unit(r, true); e.cunit = unit(r, false);
        bool str = e.bunit.up == "CCITT IA5" || e.bunit.up == "CCITTIA5", cstr = e.cunit.up == "CHARACTER";
        e.scale = str || r.chance(1, 2) ? 0 : r.range(-20, 20);
        e.refv = str || r.chance(1, 2) ? 0 : r.chance(1, 4) ? r.range(-2000000000, 2000000000) : r.range(-2000, 2000);
        e.bits = str ? 8 * r.range(1, 120) : r.range(1, 32);
        e.cscale = cstr || r.chance(1, 2) ? 0 : r.range(-9, 20);
        e.chars = cstr ? r.range(1, 200) : r.range(1, 12);
        e.crex = all_crex ? ref::X(e.code) != 31 || r.chance(1, 3) : r.chance(9, 10);
        if (!e.crex && ref::X(e.code) != 31) s.crex_loadable = false;
        s.b.push_back(e);
    }
    std::sort(s.b.begin(), s.b.end(), [](const BEntry& a, const BEntry& b) { return a.code < b.code; });
    s.bd = gen_d(r); s.cd = gen_d(r);
    s.bxml = write_b(r, s.b); s.bdxml = write_d(r, s.bd); s.cdxml = write_d(r, s.cd);
    return s;
}

// ---- A zip archive with stored members

uint32_t crc32(const std::string& s)
{
    uint32_t c = ~0u;
    for (unsigned char b : s) { c ^= b; for (int k = 0; k < 8; ++k) c = (c >> 1) ^ (0xedb88320u & -(c & 1)); }
    return ~c;
}
std::string le(uint64_t v, unsigned n) { std::string s; while (n--) { s += char(v & 0xff); v >>= 8; } return s; }
std::string zip(const std::vector<std::pair<std::string, std::string>>& files)
{
    std::string out, dir;
    for (auto& f : files)
    {
        std::string common = le(0, 2) + le(0, 2) + le(0, 2) + le(0x4a21, 2) + le(crc32(f.second), 4) + le(f.second.size(), 4) + le(f.second.size(), 4) + le(f.first.size(), 2) + le(0, 2);
        dir += "PK\x01\x02" + le(20, 2) + le(20, 2) + common + le(0, 2) + le(0, 2) + le(0, 2) + le(0, 4) + le(out.size(), 4) + f.first;
        out += "PK\x03\x04" + le(20, 2) + common + f.first + f.second;
    }
    size_t at = out.size();
    return out + dir + "PK\x05\x06" + le(0, 4) + le(files.size(), 2) + le(files.size(), 2) + le(dir.size(), 4) + le(at, 4) + le(0, 2);
}

struct Ran { int status = 0; std::string err; bool ok() const { return WIFEXITED(status) && WEXITSTATUS(status) == 0; } };
Ran run(const std::string& cwd, const std::string& side, const std::vector<std::string>& args)
{
    Ran res;
    std::string script = vf::repo() + "/src/wrep-importtable", fe = side + "/stderr", fo = side + "/stdout";
    std::vector<const char*> argv{"python3", "-B", script.c_str()};
    for (auto& a : args) argv.push_back(a.c_str());
    argv.push_back(nullptr);
    pid_t pid = fork();
    if (pid < 0) throw std::runtime_error("cannot fork");
    if (pid == 0)
    {
        int o = open(fo.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), e = open(fe.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600), i = open("/dev/null", O_RDONLY);
        dup2(i, 0); dup2(o, 1); dup2(e, 2);
        rlimit rl{60, 65}; setrlimit(RLIMIT_CPU, &rl);
        setenv("LC_ALL", "C.UTF-8", 1); unsetenv("PYTHONPATH"); unsetenv("PYTHONHOME"); unsetenv("LD_PRELOAD");
        if (chdir(cwd.c_str()) != 0) _exit(97);
        execvp("python3", const_cast<char* const*>(argv.data()));
        _exit(98);
    }
    while (waitpid(pid, &res.status, 0) < 0) if (errno != EINTR) throw std::runtime_error("cannot wait");
    res.err = vf::read_file(fe);
    unlink(fo.c_str()); unlink(fe.c_str());
    if (WIFEXITED(res.status) && (WEXITSTATUS(res.status) == 97 || WEXITSTATUS(res.status) == 98)) throw std::runtime_error("cannot run python3");
    return res;
}

// ---- What the files must hold

std::string norm(std::string u)
{
    auto st = [&](const char* p) { return u.compare(0, strlen(p), p) == 0; };
    if (st("CODE TABLE") || st("CODETABLE")) return "CODE TABLE";
    if (st("FLAG TABLE") || st("FLAGTABLE")) return "FLAG TABLE";
    return u;
}
std::string trim(std::string s) { while (!s.empty() && isspace((unsigned char)s.back())) s.pop_back(); return s; }
// Text which fits in a column of so many characters, and in memory in so many bytes
std::string fit(const std::string& s, size_t chars, size_t bytes) { return trim(ref::utf8_cut(trim(s.substr(0, ref::utf8_col(s, chars))), bytes)); }

void check_b(vf::Ctx& c, const std::string& path, const std::vector<BEntry>& want, bool bufr, const std::string& what)
{
    const Vartable* t;
    try { t = bufr ? Vartable::load_bufr(path) : Vartable::load_crex(path); }
    catch (std::exception& e) { c.failstop("table-unusable", what + e.what()); }
    std::vector<const BEntry*> list;
    for (auto& e : want) if (bufr || e.crex) list.push_back(&e);
    std::vector<Varinfo> seen;
    t->iterate([&](Varinfo i) { seen.push_back(i); return true; });
    for (auto e : list) if (!t->contains(e->code)) c.failstop("entry-lost", what + digits(e->code) + " is not in the imported table");
    c.check(seen.size() == list.size(), "entry-count", what + fmt("%zu entries were imported instead of %zu", seen.size(), list.size()));
    for (size_t i = 0; i < list.size(); ++i)
    {
        auto& e = *list[i]; Varinfo v = seen[i];
        std::string w = what + digits(e.code) + ": ";
        c.check(v->code == e.code, "entry-order", w + "has entry " + digits(v->code) + " in its place");
        std::string d = fit(e.name, 64, 63);
        c.check(trim(v->desc) == d, "entry-description", w + "description is " + vf::jstr(v->desc) + " instead of " + vf::jstr(d));
        std::string u = bufr ? e.bunit.up : e.cunit.up;
        if (bufr && u == "CCITT IA5") u = "CCITTIA5";
        u = norm(fit(u, 24, 23));
        c.check(trim(v->unit) == u, "entry-unit", w + "unit is " + vf::jstr(v->unit) + " instead of " + vf::jstr(u));
        bool str = bufr ? u == "CCITTIA5" : u == "CHARACTER";
        c.check((v->type == Vartype::String) == str, "entry-type", w + "wrong type for unit " + u);
        c.check(v->scale == (bufr ? e.scale : e.cscale), "entry-scale", w + fmt("scale is %d instead of %d", v->scale, bufr ? e.scale : e.cscale));
        if (bufr)
        {
            c.check(v->bit_ref == e.refv, "entry-reference", w + fmt("reference value is %d instead of %ld", v->bit_ref, e.refv));
            c.check(v->bit_len == e.bits, "entry-width", w + fmt("width is %u instead of %u", v->bit_len, e.bits));
        } else
            c.check(v->len == e.chars, "entry-width", w + fmt("width is %u instead of %u", v->len, e.chars));
        c.count(bufr ? "bufr-entries" : "crex-entries");
        if (d != trim(e.name)) c.count("long-names");
        if (std::any_of(e.name.begin(), e.name.end(), [](char x) { return x & 0x80; })) c.count("non-ascii-names");
    }
}
void check_d(vf::Ctx& c, const std::string& path, const std::map<Code, std::vector<Code>>& want, bool bufr, const std::string& what)
{
    const DTable* t;
    try { t = bufr ? DTable::load_bufr(path) : DTable::load_crex(path); }
    catch (std::exception& e) { c.failstop("sequences-unusable", what + e.what()); }
    for (auto& i : want)
    {
        std::string w = what + digits(i.first) + ": ";
        std::vector<Code> got;
        try { Opcodes o = t->query(i.first); for (unsigned k = 0; k < o.size(); ++k) got.push_back(o[k]); } catch (std::exception& e) { c.failstop("sequence-lost", w + e.what()); }
        c.check(got == i.second, "sequence-differs", w + [&]{ std::string s = "expands to"; for (auto k : got) s += " " + digits(k); s += " instead of"; for (auto k : i.second) s += " " + digits(k); return s; }());
        c.count("sequences");
    }
    for (unsigned x = 0; x < 64; ++x)
        for (unsigned y = 0; y < 256; ++y)
        {
            Code k = ref::mk(3, x, y);
            if (want.count(k)) continue;
            bool found = true;
            try { t->query(k); } catch (error_notfound&) { found = false; }
            c.check(!found, "sequence-invented", what + digits(k) + " is in the imported table and not in the source");
            if (c.rng.below(40)) y += c.rng.below(60);
        }
}

void import_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    c.set_bounded(false);
    Dir out(c, "out"), side(c, "side");
    Source s = gen(r);
    unsigned v = r.chance(1, 2) ? r.range(14, 40) : r.range(1, 254), sv = r.chance(2, 3) ? 0 : r.range(0, 20), lv = r.below(3);
    std::string damage;
    std::vector<std::string> args;
    enum { ZIP, B, D } how = r.chance(2, 3) ? ZIP : r.chance(1, 2) ? B : D;
    bool broken = r.chance(1, 5);
    auto spoil = [&](std::string& xml) {
        switch (r.below(4))
        {
            case 0: xml = xml.substr(0, xml.rfind("</dataroot>")); damage = "XML without its end"; break;
            case 1: { size_t p = xml.find("<dataroot"); xml.insert(xml.find('>', p) + 1, "<TableB><TableD><a></b></TableD></TableB>"); damage = "XML badly nested"; break; }
            case 2: { size_t p = xml.find("<dataroot"); xml.insert(xml.find('>', p) + 1, " a & b "); damage = "XML with a bare ampersand"; break; }
            default: xml = ""; damage = "empty XML"; break;
        }
    };
    auto spoil_b = [&](std::string& xml) {
        static const char* f[] = {"BUFR_Scale", "BUFR_ReferenceValue", "BUFR_DataWidth_Bits"};
        std::string k = f[r.below(3)], o = "<" + k + ">", e = "</" + k + ">";
        std::vector<size_t> at;
        for (size_t p = xml.find(o); p != std::string::npos; p = xml.find(o, p + 1))
            if (xml.find("<!--", p) > xml.find(e, p)) at.push_back(p);
        if (at.empty()) { spoil(xml); return; }
        size_t p = r.pick(at) + o.size();
        xml.replace(p, xml.find(e, p) - p, r.pick(std::vector<std::string>{"", "x", "1 2", "See note"}));
        damage = k + " which is not a number";
    };
    if (broken && how != D && r.chance(1, 3)) spoil_b(s.bxml);
    else if (broken && how == B) spoil(s.bxml);
    else if (broken && how == D) spoil(s.bdxml);
    std::string arg;
    if (how == ZIP)
    {
        if (broken && damage.empty() && r.chance(1, 3)) spoil(r.chance(1, 3) ? s.bxml : r.chance(1, 2) ? s.bdxml : s.cdxml);
        std::string lang = r.chance(1, 2) ? "E" : "en", dir = fmt("BUFRCREX_%u_%u_%u/", v, sv, lv), num = fmt("_%u_%u_%u_", v, sv, lv);
        std::vector<std::pair<std::string, std::string>> files{{dir + "BUFRCREX" + num + "TableB_" + lang + ".xml", s.bxml}, {dir + "BUFR" + num + "TableD_" + lang + ".xml", s.bdxml}, {dir + "CREX" + num + "TableD_" + lang + ".xml", s.cdxml}};
        for (auto& n : {dir + "BUFRCREX" + num + "CodeFlag_en.xml", dir + "CREX" + num + "TableA_en.xml", std::string("readme.txt"), dir + "BUFR" + num + "TableC_en.xml", dir + "BUFRCREX" + num + "TableB_en.txt", dir + "BUFRCREX" + num + "TableB_fr.xml", "txt/BUFRCREX" + num + "TableB_en.xml"})
            if (r.chance(1, 3)) files.push_back({n, "<dataroot><x>not a table</x></dataroot>"});
        for (size_t i = files.size(); i > 1; --i) std::swap(files[i - 1], files[r.below(i)]);
        std::string z = zip(files);
        if (broken && damage.empty())
        {
            if (r.chance(1, 2)) { z.resize(r.below(z.size())); damage = "truncated archive"; }
            else
            {
                // One byte of the text of a table
                const std::string& x = r.chance(1, 3) ? s.bxml : r.chance(1, 2) ? s.bdxml : s.cdxml;
                size_t p = z.find(x); z[p + r.below(x.size())] ^= 1 << r.below(8); damage = "archive with a damaged member";
            }
        }
        arg = side.path + "/t.zip"; put(arg, z);
        args = {"--zipfile", arg};
    } else {
        arg = side.path + "/t.xml"; put(arg, how == B ? s.bxml : s.bdxml);
        args = {how == B ? "--btable" : "--dtable", arg};
        v = sv = 255;
    }
    if (broken && damage.empty()) { spoil(how == B ? s.bxml : s.bdxml); put(arg, how == B ? s.bxml : s.bdxml); }
    if (r.chance(1, 8)) { unlink(arg.c_str()); damage = "missing file"; }
    if (r.chance(1, 8)) args.insert(args.begin() + (r.chance(1, 2) ? 0 : 2), r.pick(std::vector<std::string>{"--verbose", "-v", "--debug"}));
    std::string what = fmt("%s, version %u.%u.%u, %zu elements, %zu and %zu sequences%s%s: ", how == ZIP ? "archive" : how == B ? "table B" : "table D", v, sv, lv, s.b.size(), s.bd.size(), s.cd.size(), damage.empty() ? "" : ", ", damage.c_str());
    c.note(what);
    Ran ran = run(out.path, side.path, args);
    c.distinct(vf::fnv(s.bxml + s.bdxml + s.cdxml + damage));
    if (!damage.empty())
    {
        c.check(!ran.ok(), "failure-unreported", what + "exit status 0, with on standard error " + vf::jstr(ran.err.substr(0, 300)));
        c.check(WIFEXITED(ran.status), "failure-by-signal", what + fmt("ended with status %d", ran.status));
        c.check(!ran.err.empty(), "failure-silent", what + "nothing on standard error");
        c.count("refused:" + damage.substr(0, damage.find(" which")));
        return;
    }
    c.check(ran.ok(), "import-failed", what + fmt("status %d: ", ran.status) + ran.err.substr(ran.err.size() > 500 ? ran.err.size() - 500 : 0));
    auto has = [&](const std::string& n) { struct stat st; return stat((out.path + "/" + n).c_str(), &st) == 0; };
    std::vector<std::string> expect;
    std::string ver = fmt("%03u%03u", v, sv), cver = fmt("%02u%02u", v, sv);
    if (how != D) { expect.push_back("B0000000000000" + ver + ".txt"); expect.push_back("B00" + cver + ".txt"); }
    if (how != B) expect.push_back("D0000000000000" + ver + ".txt");
    if (how == ZIP) expect.push_back("D00" + cver + ".txt");
    for (auto& n : expect) c.check(has(n), "file-missing", what + n + " was not written");
    if (how != D)
    {
        check_b(c, out.path + "/" + expect[0], s.b, true, what + expect[0] + ": ");
        c.check(vf::read_file(out.path + "/" + expect[0]) == vf::read_file(out.path + "/" + expect[1]), "crex-file", what + "the tables for BUFR and CREX differ");
        if (s.crex_loadable) { check_b(c, out.path + "/" + expect[1], s.b, false, what + expect[1] + ": "); c.count("crex-tables"); }
        else c.count("crex-unjudged");
    }
    if (how != B) check_d(c, out.path + "/D0000000000000" + ver + ".txt", s.bd, true, what + "BUFR sequences: ");
    if (how == ZIP) check_d(c, out.path + "/D00" + cver + ".txt", s.cd, false, what + "CREX sequences: ");
    auto there = ls(out.path);
    for (auto& n : there) c.check(std::find(expect.begin(), expect.end(), n) != expect.end(), "file-unexpected", what + n + " was written");
    // The directory serves messages of that version
    if (how == ZIP)
    {
        tabledir::Tabledirs dirs;
        dirs.add_directory(out.path);
        BufrTableID id(98, 0, 0, v, 0);
        auto t = dirs.find_bufr(id);
        c.check(t != nullptr && t->btable_pathname.filename() == expect[0], "version-not-served", what + "messages of this version do not get the imported table");
        c.count("served");
    }
    c.count(how == ZIP ? "archives" : how == B ? "single-b" : "single-d");
    c.sample(what);
}
vf::Reg reg("import", import_case);

}
