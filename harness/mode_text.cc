// C23: text forms of codes and types, and what errors and notes say
#include "cmp.h"
#include "crexutil.h"
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/varinfo.h>
#include <wreport/bulletin.h>
#include <cerrno>
#include <functional>
#include <memory>
#include <regex.h>
#include <sstream>
#include <typeinfo>
#include <unistd.h>

using namespace wreport;
using vf::fmt;

namespace {

// A C string in storage of its own, so that reads past its end are seen
struct CStr
{
    std::unique_ptr<char[]> p;
    CStr(const std::string& s) : p(new char[s.size() + 1]) { memcpy(p.get(), s.c_str(), s.size() + 1); }
    operator const char*() const { return p.get(); }
};

template<typename Fn> ErrorCode error_of(vf::Ctx& c, Fn fn, std::string* text = nullptr)
{
    try { fn(); return WR_ERR_NONE; }
    catch (wreport::error& e) { if (text) *text = e.what(); return e.code(); }
    catch (vf::Stop&) { throw; }
    catch (std::exception& e) { c.failstop("foreign-exception", e.what()); }
}

// ---- codes

void code_ok(vf::Ctx& c, unsigned code)
{
    unsigned f = code / 16384, x = code / 256 % 64, y = code % 256;
    std::string name = fmt("%c%02u%03u", "BRCD"[f], x, y), num = fmt("%u%02u%03u", f, x, y);
    std::string got = varcode_format((Varcode)code);
    c.check(got == name, "varcode_format", fmt("code %u written as ", code) + vf::jstr(got) + " instead of " + name);
    for (auto& s : { name, num })
    {
        unsigned v = 0;
        ErrorCode e = error_of(c, [&] { v = varcode_parse(CStr(s)); });
        c.check(e == WR_ERR_NONE && v == code, "varcode_parse", s + fmt(" read as %u (error %d) instead of %u", v, (int)e, code));
    }
    c.check(WR_VAR_F((Varcode)code) == f && WR_VAR_X((Varcode)code) == x && WR_VAR_Y((Varcode)code) == y, "fxy", name + fmt(" split in %d %d %d", WR_VAR_FXY((Varcode)code)));
    c.check(WR_VAR(f, x, y) == code, "wr_var", name + fmt(" joined in %u", (unsigned)WR_VAR(f, x, y)));
    CStr tail(name.substr(1)); const char* t = tail;
    c.check(WR_STRING_TO_VAR(t) == code % 16384, "wr_string_to_var", name + fmt(" read as %u", (unsigned)WR_STRING_TO_VAR(t)));
    c.count("codes");
}

void code_bad(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    std::string s = fmt("%c%02u%03u", "BRCD0123"[r.below(8)], (unsigned)r.below(64), (unsigned)r.below(256));
    if (r.chance(1, 4)) s.resize(r.below(6));
    else
    {
        static const char odd[] = "/:+- .,aAbBcCdDeExX\t\n\x01\x7f\x80\xb2\xff\xe9";
        s[1 + r.below(5)] = r.chance(1, 2) ? odd[r.below(sizeof(odd) - 1)] : (char)(128 + r.below(128));
    }
    c.distinct(vf::fnv(s));
    c.note("varcode_parse of " + vf::jstr(s));
    unsigned v = 0; std::string text;
    ErrorCode e = error_of(c, [&] { v = varcode_parse(CStr(s)); }, &text);
    c.check(e == WR_ERR_CONSISTENCY, "varcode-accepted", vf::jstr(s) + fmt(" read as %u, error %d", v, (int)e));
    c.count(s.empty() ? "codes-refused:empty" : "codes-refused");
    c.check(error_of(c, [&] { varcode_parse(nullptr); }) == WR_ERR_CONSISTENCY, "varcode-null", "a null pointer is not refused");
}

// ---- types

void types(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    static const struct { Vartype t; const char* n; } all[] = {
        {Vartype::Integer, "integer"}, {Vartype::Decimal, "decimal"}, {Vartype::String, "string"}, {Vartype::Binary, "binary"} };
    for (auto& a : all)
    {
        c.check(std::string(vartype_format(a.t)) == a.n, "vartype_format", std::string(a.n) + " written as " + vartype_format(a.t));
        Vartype t = Vartype::Integer; bool ok = error_of(c, [&] { t = vartype_parse(CStr(a.n)); }) == WR_ERR_NONE;
        c.check(ok && t == a.t, "vartype_parse", std::string(a.n) + " read as " + vartype_format(t));
        std::ostringstream o; o << a.t;
        c.check(o.str() == a.n, "vartype-stream", a.n + std::string(" written as ") + o.str());
        std::string s = a.n;
        switch (r.below(5))
        {
            case 0: s[r.below(s.size())] ^= 1 + r.below(127); break;
            case 1: s.resize(r.below(s.size())); break;
            case 2: s += (char)r.range(32, 126); break;
            case 3: s[0] = toupper(s[0]); break;
            default: s.clear(); for (unsigned k = r.below(10); k; --k) s += (char)r.range(1, 255); break;
        }
        s = s.c_str();
        bool known = false; for (auto& b : all) known |= s == b.n;
        if (known) continue;
        c.check(error_of(c, [&] { vartype_parse(CStr(s)); }) == WR_ERR_CONSISTENCY, "vartype-accepted", vf::jstr(s));
        c.count("types-refused");
    }
    c.count("types");
}

// ---- errors

std::string any_text(vf::Rng& r)
{
    std::string s;
    size_t n = r.chance(1, 30) ? r.below(100000) : r.chance(1, 4) ? r.below(3) : r.below(200);
    for (; n; --n) s += r.chance(1, 10) ? "%s%n\\\"\n"[r.below(7)] : (char)r.range(1, 255);
    return s;
}

template<typename E> void one_error(vf::Ctx& c, const char* name, ErrorCode code, const std::string& want, std::function<void()> thrower)
{
    bool as_type = false;
    c.note(std::string(name) + " " + vf::jstr(want.substr(0, 300)));
    // As itself, and copied
    try { thrower(); }
    catch (E& e)
    {
        as_type = true;
        E copy(e);
        c.check(copy.code() == code && copy.what() == want, "error-copy", std::string(name) + ": " + vf::jstr(std::string(copy.what()).substr(0, 300)));
        c.check(e.code() == code, "error-code", std::string(name) + fmt(" has code %d instead of %d", (int)e.code(), (int)code));
        c.check(e.what() == want, "error-text", std::string(name) + ": " + vf::jstr(std::string(e.what()).substr(0, 600)) + " instead of " + vf::jstr(want.substr(0, 600)));
    }
    catch (std::exception& e) { c.failstop("error-type", std::string(name) + " thrown as " + typeid(e).name()); }
    c.check(as_type, "error-not-thrown", name);
    // As any library error, and as any error
    bool lib = false, std_ = false;
    try { thrower(); } catch (wreport::error& e) { lib = e.code() == code && e.what() == want; } catch (...) {}
    try { thrower(); } catch (std::exception& e) { std_ = e.what() == want; } catch (...) {}
    c.check(lib, "error-base", std::string(name) + " is not seen as a library error"); c.check(std_, "error-std", std::string(name) + " is not seen as a standard exception");
    c.count(std::string("errors:") + name); c.distinct(vf::fnv(std::string(name) + want));
}

template<typename E> void simple_error(vf::Ctx& c, const char* name, ErrorCode code)
{
    vf::Rng& r = c.rng;
    std::string m = any_text(r);
    one_error<E>(c, name, code, m, [&] { throw E(m); });
    int n = (int)r.next(); char ch = (char)r.range(33, 126);
    std::string want = fmt("value %d '%c' %03u: ", n, ch, (unsigned)(n & 1023)) + m + fmt(" %.3f", n / 8.0);
    one_error<E>(c, name, code, want, [&] { E::throwf("value %d '%c' %03u: %s %.3f", n, ch, (unsigned)(n & 1023), m.c_str(), n / 8.0); });
}

void errors(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    switch (r.below(10))
    {
        case 0: simple_error<error_notfound>(c, "notfound", WR_ERR_NOTFOUND); break;
        case 1: simple_error<error_type>(c, "type", WR_ERR_TYPE); break;
        case 2: simple_error<error_handles>(c, "handles", WR_ERR_HANDLES); break;
        case 3: simple_error<error_toolong>(c, "toolong", WR_ERR_TOOLONG); break;
        case 4: simple_error<error_consistency>(c, "consistency", WR_ERR_CONSISTENCY); break;
        case 5: simple_error<error_unimplemented>(c, "unimplemented", WR_ERR_UNIMPLEMENTED); break;
        case 6: simple_error<error_domain>(c, "domain", WR_ERR_DOMAIN); break;
        case 7:
        {
            std::string m = any_text(r); int en = 1 + r.below(130), other = 1 + r.below(130);
            std::string want = m + ": " + ::strerror(en);
            one_error<error_system>(c, "system", WR_ERR_SYSTEM, want, [&] { errno = en; throw error_system(m); });
            one_error<error_system>(c, "system-given", WR_ERR_SYSTEM, want, [&] { errno = other; throw error_system(m, en); });
            one_error<error_system>(c, "system-throwf", WR_ERR_SYSTEM, "cannot do " + want, [&] { errno = en; error_system::throwf("cannot do %s", m.c_str()); });
            break;
        }
        case 8:
        {
            std::string m = any_text(r), f = any_text(r); int line = r.chance(1, 2) ? (int)r.below(100) : (int)r.next();
            std::string want = f + ":" + std::to_string(line) + ": " + m;
            one_error<error_parse>(c, "parse", WR_ERR_PARSE, m, [&] { throw error_parse(m); });
            one_error<error_parse>(c, "parse-at", WR_ERR_PARSE, want, [&] { throw error_parse(f.c_str(), line, m); });
            one_error<error_parse>(c, "parse-throwf", WR_ERR_PARSE, want + fmt(" %d", line), [&] { error_parse::throwf(f.c_str(), line, "%s %d", m.c_str(), line); });
            break;
        }
        default:
        {
            static const char* bad[] = { "(", "[", "a{2", "*", "[[:x:]]", "\\", "a)", "(a", "[b-a]", "a{3,1}" };
            regex_t re; std::string m = any_text(r), detail;
            int code = 0; for (unsigned k = 0; k < 20 && !code; ++k) { code = regcomp(&re, bad[r.below(10)], REG_EXTENDED); if (!code) regfree(&re); }
            if (!code) break;
            char buf[512]; regerror(code, &re, buf, sizeof(buf));
            std::string want = m + ": " + buf;
            one_error<error_regexp>(c, "regexp", WR_ERR_REGEX, want, [&] { throw error_regexp(code, &re, m); });
            one_error<error_regexp>(c, "regexp-throwf", WR_ERR_REGEX, "in " + want, [&] { error_regexp::throwf(code, &re, "in %s", m.c_str()); });
            one_error<error_alloc>(c, "alloc", WR_ERR_ALLOC, "no memory", [&] { throw error_alloc("no memory"); });
            break;
        }
    }
    static const char* names[] = { "no error", "item not found", "wrong variable type", "cannot allocate memory", "ODBC error", "handle management error",
        "buffer is too short to fit data", "error reported by the system", "consistency check failed", "parse error", "write error",
        "regular expression error", "feature not implemented", "value outside valid domain" };
    for (int i = WR_ERR_NONE; i <= WR_ERR_DOMAIN; ++i)
        c.check(std::string(wreport::error::strerror((ErrorCode)i)) == names[i], "strerror", fmt("code %d: ", i) + wreport::error::strerror((ErrorCode)i));
}

// ---- notes

void note_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    std::ostringstream o; std::string want;
    {
        notes::Collect col(o);
        c.check(notes::logs(), "notes-logs", "notes are collected, and logs() says no");
        for (unsigned k = 1 + r.below(6); k; --k)
        {
            std::string m = any_text(r); int n = (int)r.next();
            if (r.chance(1, 2)) { notes::logf("%s:%d\n", m.c_str(), n); want += m + ":" + std::to_string(n) + "\n"; }
            else { notes::log() << m << n; want += m + std::to_string(n); }
        }
    }
    c.check(!notes::logs(), "notes-logs", "notes are not collected, and logs() says so");
    notes::logf("%s\n", "nowhere"); notes::log() << "nowhere" << 1 << std::endl;
    c.check(o.str() == want, "notes", vf::jstr(o.str().substr(0, 600)) + " instead of " + vf::jstr(want.substr(0, 600)));
    c.count("notes");
}

// ---- where parse errors happened

void where(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    bool bufr = r.chance(1, 2);
    std::string m;
    // where the position reported has to be
    size_t first = 0, last = (size_t)-1; bool known = false;
    auto at = [&](size_t p, size_t q) { first = p; last = q; known = true; };
    if (bufr)
    {
        ref::GenOpts o; o.max_items = 4; ref::GenMsg g = ref::gen_bufr(r, o); m = g.msg;
        ref::Layout l = ref::layout(m);
        if (!l.ok) throw std::runtime_error("generated message has a bad layout");
        size_t need = (g.data_bits + 7) / 8;
        switch (r.below(9))
        {
            case 0: m[r.below(4)] ^= 1 << r.below(8); at(0, 0); break;
            case 1: m[7] = (char)(5 + r.below(250)); at(7, 7); break;
            case 2: m[l.end + r.below(4)] ^= 1 << r.below(8); at(l.end, l.end); break;
            case 3: m[l.sec3 + 4] = m[l.sec3 + 5] = 0; at(l.sec3 + 4, l.sec3 + 4); break;
            case 4:
            {
                if (need < 2) return;
                m = ref::assemble(g.h, g.subsets, g.compressed, g.dd, g.data.substr(0, r.below(need)), false);
                l = ref::layout(m); if (!l.ok) return;
                at(l.sec4 + 4, l.end); break;
            }
            case 5:
            {
                std::vector<unsigned> secs{l.sec1, l.sec3, l.sec4}; if (l.sec2) secs.push_back(l.sec2);
                unsigned p = r.pick(secs); ref::put3(m, p, m.size() - p + 1 + r.below(1000));
                // the end of the last section is only known when it is looked for
                if (p == l.sec4) at(p, m.size() + 1000); else at(p, p);
                break;
            }
            case 6: m.resize(r.below(m.size())); break;
            case 7: for (unsigned k = 1 + r.below(6); k; --k) m[r.below(m.size())] = (char)r.below(256); break;
            default: m[r.below(std::min<size_t>(m.size(), 30))] ^= 1 << r.below(8); break;
        }
    } else {
        ref::CrexMsg g = ref::gen_crex(r); m = g.canonical;
        const size_t t = 9, a = m.find(' ', t) + 1, d = m.find(' ', a), e = m.find("++", a), end = m.rfind("7777");
        switch (r.below(9))
        {
            case 0: m[r.below(6)] = '*'; at(0, 0); break;
            case 1: m[t] = '*'; at(t, t); break;
            case 2: m[a] = '*'; at(a, a); break;
            case 3: { size_t k = d + 1 + 7 * r.below((e - d) / 7); if (k + 6 > e) k = d + 1; m[k] = '*'; at(k, k); break; }
            case 4: m[e + 1] = '*'; at(e, e); break;
            case 5: m[end + r.below(4)] = '*'; at(end, end); break;
            case 6: { size_t n = r.below(e); m.resize(n); at(n > 10 ? n - 10 : 0, n); break; }
            case 7: m.resize(r.below(m.size())); break;
            default: for (unsigned k = 1 + r.below(6); k; --k) m[r.below(m.size())] = (char)r.below(256); break;
        }
    }
    std::string fname = r.chance(1, 4) ? "a file %s.bufr" : fmt("f%u", (unsigned)r.below(1000));
    size_t offset = r.chance(1, 3) ? r.below(1000000) : r.chance(1, 3) ? 5000000000ull : r.below(3);
    std::string t = cmp::tight(m);
    c.note(fmt("%s decode of ", bufr ? "BUFR" : "CREX") + vf::hex(m, 1500));
    std::string text; bool parse = false;
    static FILE* null = fopen("/dev/null", "w");
    unsigned how = r.chance(1, 2) ? 0 : r.below(5);
    auto opts = BufrCodecOptions::create();
    try
    {
        if (bufr) switch (how)
        {
            case 0: BufrBulletin::decode(t, fname.c_str(), offset); break;
            case 1: BufrBulletin::decode(t, *opts, fname.c_str(), offset); break;
            case 2: BufrBulletin::decode_verbose(t, null, fname.c_str(), offset); break;
            case 3: BufrBulletin::decode_header(t, fname.c_str(), offset); break;
            default: BufrBulletin::decode_header(t, *opts, fname.c_str(), offset); break;
        } else switch (how)
        {
            case 0: case 1: CrexBulletin::decode(t, fname.c_str(), offset); break;
            case 2: CrexBulletin::decode_verbose(t, null, fname.c_str(), offset); break;
            default: CrexBulletin::decode_header(t, fname.c_str(), offset); break;
        }
        c.count("where-decoded"); return;
    }
    catch (error_parse& e) { parse = true; text = e.what(); }
    catch (wreport::error& e) { text = e.what(); }
    c.check(!text.empty(), "empty-error", "an error without text");
    if (!parse) { c.count("where-other"); return; }
    // Errors in the tables tell where they are in the tables
    size_t tab = text.find(".txt:");
    if (tab != std::string::npos && access(text.substr(0, tab + 4).c_str(), R_OK) == 0) { c.count("where-tables"); return; }
    std::string lead = fname + fmt(":%zu+", offset);
    c.check(text.compare(0, lead.size(), lead) == 0, "error-place", vf::jstr(text.substr(0, 300)) + " does not start with " + vf::jstr(lead));
    size_t p = lead.size(), q = p; while (q < text.size() && isdigit((unsigned char)text[q])) ++q;
    c.check(q > p && text.compare(q, 2, ": ") == 0, "error-place", vf::jstr(text.substr(0, 300)) + " has no position");
    unsigned long long pos = strtoull(text.c_str() + p, nullptr, 10);
    c.check(pos <= m.size() + 8, "error-position", vf::jstr(text.substr(0, 300)) + fmt(" in a message of %zu bytes", m.size()));
    if (known)
    {
        c.check(pos >= first && pos <= last, "error-position", vf::jstr(text.substr(0, 300)) + fmt(" and not between %zu and %zu", first, last));
        c.count("where-exact");
    }
    c.check(text.size() > q + 2, "error-place", vf::jstr(text) + " says nothing");
    c.count(bufr ? "where:bufr" : "where:crex"); c.distinct(vf::fnv(text));
}

void text_case(vf::Ctx& c)
{
    // All the codes, a slice at each case
    for (unsigned k = 0; k < 64; ++k) code_ok(c, (c.case_no * 64 + k) % 65536);
    for (int k = 0; k < 10; ++k) code_bad(c);
    types(c);
    for (int k = 0; k < 3; ++k) errors(c);
    note_case(c);
    where(c);
}
void setup(vf::Ctx& c) { cmp::setup_crex(c); }
vf::Reg r1("text", text_case, setup);

}
