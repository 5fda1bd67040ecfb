// Variables seen from Lua (C17)
#include "varpool.h"
#include <wreport/error.h>
#include <wreport/tables.h>
#include <wreport/tableinfo.h>
#include <cmath>
extern "C" {
#include <lauxlib.h>
#include <lualib.h>
}
#if defined(__SANITIZE_ADDRESS__) || __has_feature(address_sanitizer)
#include <sanitizer/allocator_interface.h>
#else
static size_t __sanitizer_get_current_allocated_bytes() { return 0; }
#endif

using namespace wreport;
using vf::fmt;

namespace {

struct State
{
    lua_State* L;
    State() { L = luaL_newstate(); luaL_openlibs(L); }
    ~State() { lua_close(L); }
    State(const State&) = delete;
};

// State of a variable, without the bindings
std::string state(const Var& v) { return fmt("%p ", (const void*)v.info()) + cmp::dump(v); }

struct Subj { Var var; ref::RVar r; };

ref::RVar value(vf::Rng& r, const ref::BInfo& i)
{
    ref::RVar v; v.info = i;
    if (r.chance(1, 6)) return v;
    v.isset = true;
    switch (i.kind)
    {
        case ref::STR:
            for (unsigned k = 0, n = r.below(i.len + 1); k < n; ++k) v.s += r.chance(1, 8) ? (char)(1 + r.below(255)) : (char)(33 + r.below(94));
            break;
        case ref::BIN:
        {
            unsigned n = (i.bit_len + 7) / 8;
            for (unsigned k = 0; k < n; ++k) v.s += r.chance(1, 4) ? (char)0 : (char)r.below(256);
            if (i.bit_len % 8 && n) v.s[n - 1] &= (1 << (i.bit_len % 8)) - 1;
            break;
        }
        default:
        {
            int64_t lo = std::max<int64_t>(i.imin(), INT32_MIN), hi = std::min<int64_t>(i.imax(), INT32_MAX);
            v.i = r.chance(1, 4) ? lo : r.chance(1, 3) ? hi : r.chance(1, 2) && lo <= 0 && hi >= 0 ? std::max(lo, std::min<int64_t>(hi, r.range(-3, 3))) : r.range(lo, hi);
        }
    }
    return v;
}

const char* methods[] = { "code", "enqi", "enqd", "enqc", "tostring" };

void lua_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    varpool::Synth synth;
    std::vector<std::unique_ptr<Subj>> vars;
    unsigned nvars = 1 + r.below(4);
    Tables tables;
    for (unsigned i = 0; i < nvars; ++i)
    {
        varpool::Entry e = varpool::any(r, synth);
        if (r.chance(1, 10))
        {
            // special entries
            static Tables t; if (!t.loaded()) t.load_bufr(BufrTableID(0, 0, 0, ref::wmo_versions().back(), 0));
            std::string bm; for (unsigned k = 0, n = 1 + r.below(40); k < n; ++k) bm += "+-"[r.below(2)];
            ref::Code code = ref::mk(2, 22 + r.below(3), 0);
            std::unique_ptr<Subj> s(new Subj{Var(t.get_bitmap(code, bm), bm), ref::RVar()});
            s->r.info.code = code; s->r.info.kind = ref::STR; s->r.info.len = bm.size(); s->r.isset = true; s->r.s = bm;
            vars.push_back(std::move(s));
            continue;
        }
        ref::RVar v = value(r, e.ref);
        std::unique_ptr<Subj> s(new Subj{Var(e.info), v});
        if (v.isset) { if (v.info.kind == ref::STR || v.info.kind == ref::BIN) s->var.sets(v.s); else s->var.seti(v.i); }
        if (r.chance(1, 5)) s->var.seta(Var(varpool::installed_kind(r, ref::INT).info));
        vars.push_back(std::move(s));
    }
    State st;
    lua_State* L = st.L;
    std::string what;
    for (auto& s : vars) what += s->r.str() + "; ";
    c.note(what); c.distinct(vf::fnv(what));
    if (c.case_no < 4) c.sample(what);
    // Things on the stack that must stay there
    unsigned below = r.below(5);
    for (unsigned i = 0; i < below; ++i) lua_pushinteger(L, 1000 + i);
    int top0 = lua_gettop(L);
    for (unsigned i = 0; i < nvars; ++i)
    {
        int top = lua_gettop(L);
        if (r.chance(1, 2)) vars[i]->var.lua_push(L); else const_cast<const Var&>(vars[i]->var).lua_push(L);
        c.check(lua_gettop(L) == top + 1, "push-stack", fmt("lua_push left %d values: ", lua_gettop(L) - top) + what);
        c.check(lua_type(L, -1) == LUA_TUSERDATA, "push-type", what);
        c.check(Var::lua_check(L, -1) == &vars[i]->var && Var::lua_const_check(L, lua_gettop(L)) == &vars[i]->var, "push-pointer", what);
        // the metatable belongs to the class: the same for all
        lua_pushvalue(L, -1);
        lua_setglobal(L, fmt("v%u", i).c_str());
    }
    for (unsigned step = 0, n = 3 + r.below(12); step < n; ++step)
    {
        unsigned k = r.below(nvars);
        Subj& s = *vars[k];
        std::string before = state(s.var);
        unsigned m = r.below(5);
        int top = lua_gettop(L);
        std::string w = fmt("%s of ", methods[m]) + s.r.str();
        // How it is called: from C or from a script, with extra arguments
        bool script = r.chance(1, 2);
        unsigned extra = r.chance(1, 3) ? r.below(4) : 0;
        int rc;
        if (script)
        {
            std::string args; static const char* xs[] = { "nil", "1", "'x'", "{}", "function() end", "v0", "1.5", "true" };
            for (unsigned i = 0; i < extra; ++i) args += (args.empty() && m != 4 ? "" : ", ") + std::string(xs[r.below(8)]);
            std::string src = m == 4 ? fmt("return tostring(v%u)", k) : fmt("return v%u:%s(%s)", k, methods[m], args.c_str());
            rc = luaL_loadstring(L, src.c_str());
            if (rc) throw std::runtime_error("bad script " + src);
            rc = lua_pcall(L, 0, LUA_MULTRET, 0);
            w += " from " + src;
        } else {
            lua_getglobal(L, fmt("v%u", k).c_str());
            lua_getmetatable(L, -1);
            lua_getfield(L, -1, m == 4 ? "__tostring" : methods[m]);
            lua_insert(L, -3); lua_pop(L, 1); // function, object
            for (unsigned i = 0; i < extra; ++i) switch (r.below(4)) { case 0: lua_pushnil(L); break; case 1: lua_pushnumber(L, 3.5); break; case 2: lua_pushstring(L, "zz"); break; default: lua_newtable(L); }
            rc = lua_pcall(L, 1 + extra, LUA_MULTRET, 0);
        }
        int res = lua_gettop(L) - top;
        bool want_err = s.r.isset && (s.r.info.kind == ref::STR || s.r.info.kind == ref::BIN) && (m == 1 || m == 2);
        if (want_err)
        {
            c.check(rc != LUA_OK, "no-error", "a number was returned: " + w);
            c.check(res == 1 && lua_type(L, -1) == LUA_TSTRING && lua_rawlen(L, -1) > 0, "error-value", w);
            c.count("errors");
        } else {
            c.check(rc == LUA_OK, "error", std::string(rc && lua_tostring(L, -1) ? lua_tostring(L, -1) : "") + ": " + w);
            c.check(res == 1, "results", fmt("%d values returned: ", res) + w);
            if (m == 0)
            {
                std::string exp = fmt("%c%02u%03u", "BRCD"[ref::F(s.r.info.code)], ref::X(s.r.info.code), ref::Y(s.r.info.code));
                c.check(lua_type(L, -1) == LUA_TSTRING && exp == lua_tostring(L, -1), "code", std::string(lua_tostring(L, -1) ? lua_tostring(L, -1) : "?") + " instead of " + exp + ": " + w);
                c.count("code");
            } else if (m == 4) {
                std::string exp;
                bool judged = true;
                if (!s.r.isset) exp = "(undef)";
                else if (s.r.info.kind == ref::STR) exp = s.r.s;
                else if (s.r.info.kind == ref::BIN) { exp = s.var.format("(undef)"); }
                else exp = varpool::text(s.r.i, s.r.info.scale);
                size_t len = 0; const char* g = lua_type(L, -1) == LUA_TSTRING ? lua_tolstring(L, -1, &len) : nullptr;
                c.check(g && std::string(g, len) == s.var.format("(undef)"), "tostring", vf::jstr(g ? std::string(g, len) : "?") + " instead of " + vf::jstr(s.var.format("(undef)")) + ": " + w);
                if (judged && !(s.r.info.kind == ref::DEC && s.r.info.scale < 0)) c.check(std::string(g, len) == exp, "tostring-text", vf::jstr(std::string(g, len)) + " instead of " + vf::jstr(exp) + ": " + w);
                c.count("tostring");
            } else if (!s.r.isset) {
                c.check(lua_type(L, -1) == LUA_TNIL, "unset", "unset variable gives something else: " + w);
                c.count("unset");
            } else if (m == 1) {
                c.check(lua_isinteger(L, -1) && lua_tointeger(L, -1) == s.r.i, "enqi", fmt("%lld instead of %lld: ", (long long)lua_tointeger(L, -1), (long long)s.r.i) + w);
                c.count("enqi");
            } else if (m == 2) {
                double exp = varpool::unscaled(s.r.i, s.r.info.scale);
                c.check(lua_type(L, -1) == LUA_TNUMBER && lua_tonumber(L, -1) == s.var.enqd(), "enqd", fmt("%.17g instead of %.17g: ", lua_tonumber(L, -1), s.var.enqd()) + w);
                c.check(lua_tonumber(L, -1) == exp || std::fabs(lua_tonumber(L, -1) - exp) <= std::fabs(exp) * 1e-14, "enqd-value", fmt("%.17g instead of %.17g: ", lua_tonumber(L, -1), exp) + w);
                c.count("enqd");
            } else {
                std::string exp = s.r.info.kind == ref::STR || s.r.info.kind == ref::BIN ? s.r.s : fmt("%lld", (long long)s.r.i);
                size_t len = 0; const char* g = lua_type(L, -1) == LUA_TSTRING ? lua_tolstring(L, -1, &len) : nullptr;
                c.check(g && std::string(g, len) == exp, "enqc", vf::jstr(g ? std::string(g, len) : "?") + " instead of " + vf::jstr(exp) + ": " + w);
                c.count(s.r.info.kind == ref::BIN ? "enqc-binary" : "enqc");
            }
        }
        lua_settop(L, top);
        c.check(state(s.var) == before, "variable-changed", state(s.var) + " instead of " + before + ": " + w);
        // Calls that make no sense
        if (r.chance(1, 3))
        {
            static const char* bad[] = { "v0.%s()", "v0.%s(nil)", "v0.%s(1)", "v0.%s('x')", "v0.%s({})", "v0.%s(io.stdout)", "v0.%s(function() end)", "v0.%s(setmetatable({}, getmetatable(v0)))", "v0.%s(coroutine.create(print))" };
            const char* meth = m == 4 ? "__tostring" : methods[m];
            std::string src = fmt(bad[r.below(9)], meth);
            rc = luaL_dostring(L, ("return " + src).c_str());
            c.check(rc != LUA_OK, "bad-argument-accepted", src);
            lua_settop(L, top);
            c.count("bad-arguments");
        }
        if (r.chance(1, 8))
        {
            // no such method: nil, or an error when called; no assignment to the object
            rc = luaL_dostring(L, fmt("return v%u.nothing", k).c_str());
            c.check(rc == LUA_OK && lua_isnil(L, -1), "unknown-method", what);
            lua_settop(L, top);
            rc = luaL_dostring(L, fmt("v%u.value = 3", k).c_str());
            c.check(rc != LUA_OK, "assignment-accepted", what);
            lua_settop(L, top);
            c.check(state(s.var) == before, "variable-changed", "by an assignment: " + w);
        }
        if (r.chance(1, 6)) { lua_gc(L, LUA_GCCOLLECT, 0); c.check(state(s.var) == before, "variable-changed", "by garbage collection: " + w); }
        if (r.chance(1, 6))
        {
            // In a coroutine, and handled by the script
            std::string src = fmt("local co = coroutine.wrap(function() local ok, x = pcall(v%u.%s, v%u); coroutine.yield(1); return ok, x end); co(); return co()", k, m == 4 ? "__tostring" : methods[m], k);
            rc = luaL_dostring(L, src.c_str());
            c.check(rc == LUA_OK && lua_gettop(L) == top + 2, "coroutine", src);
            c.check((bool)lua_toboolean(L, top + 1) == !want_err, "coroutine-result", src + ": " + w);
            lua_settop(L, top);
            c.count("coroutines");
        }
    }
    // What was below is still there
    for (unsigned i = 0; i < below; ++i) c.check(lua_tointeger(L, i + 1) == (int)(1000 + i), "stack-below", what);
    c.check(lua_gettop(L) == top0 + (int)nvars, "stack-size", what);
    // Many errors leave nothing behind
    if (c.case_no % 64 == 0)
    {
        for (unsigned k = 0; k < nvars; ++k)
        {
            auto run = [&](unsigned n) { for (unsigned i = 0; i < n; ++i) { for (unsigned m = 0; m < 5; ++m) { luaL_dostring(L, fmt("return pcall(v%u.%s, v%u)", k, m == 4 ? "__tostring" : methods[m], k).c_str()); lua_settop(L, top0 + nvars); } } lua_gc(L, LUA_GCCOLLECT, 0); lua_gc(L, LUA_GCCOLLECT, 0); };
            run(20);
            size_t a = __sanitizer_get_current_allocated_bytes();
            run(20);
            size_t b = __sanitizer_get_current_allocated_bytes();
            run(20);
            size_t d = __sanitizer_get_current_allocated_bytes();
            c.check(!(b > a && d > b), "memory-grows", fmt("%zu, %zu, %zu bytes: ", a, b, d) + what);
            c.count("memory-probes");
        }
    }
}
vf::Reg r1("lua", lua_case, varpool::setup);

}
