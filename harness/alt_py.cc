// The Python bindings, embedded together with an interpreter, compared with
// the library (C16).  Built only into the pydriver.
#define PY_SSIZE_T_CLEAN
#include <Python.h>
#include <wreport/python.h>
#include "varpool.h"
#include <wreport/conv.h>
#include <wreport/error.h>
#include <wreport/notes.h>
#include <wreport/options.h>
#include <wreport/tableinfo.h>
#include <wreport/internals/tabledir.h>
#include <cmath>
#include <limits>

extern "C" PyObject* PyInit__wreport(void);

using namespace wreport;
using vf::fmt;

namespace {

struct NullBuf : public std::streambuf { int overflow(int c) override { return c; } };
NullBuf nullbuf; std::ostream notes_out(&nullbuf);

// Owned reference
struct P
{
    PyObject* o;
    P(PyObject* o = nullptr) : o(o) {}
    P(const P& p) : o(p.o) { Py_XINCREF(o); }
    P(P&& p) : o(p.o) { p.o = nullptr; }
    P& operator=(P p) { std::swap(o, p.o); return *this; }
    ~P() { Py_XDECREF(o); }
    operator PyObject*() const { return o; }
    PyObject* give() { PyObject* r = o; o = nullptr; return r; }
};

PyObject *module, *t_var, *t_varinfo, *t_vartable, *f_convert;
const wrpy_c_api* api;
PyObject* scope; // globals for eval

P eval(const std::string& src)
{
    P res(PyRun_String(src.c_str(), Py_eval_input, scope, scope));
    if (!res) { PyErr_Print(); throw std::runtime_error("cannot evaluate " + src); }
    return res;
}

void setup(vf::Ctx& c)
{
    varpool::setup(c);
    PyPreConfig pre; PyPreConfig_InitPythonConfig(&pre);
    pre.allocator = PYMEM_ALLOCATOR_MALLOC; pre.utf8_mode = 1;
    Py_PreInitialize(&pre);
    PyImport_AppendInittab("_wreport", PyInit__wreport);
    PyConfig cfg; PyConfig_InitPythonConfig(&cfg);
    cfg.write_bytecode = 0; cfg.site_import = 0; cfg.use_environment = 0; cfg.install_signal_handlers = 0;
    PyStatus st = Py_InitializeFromConfig(&cfg);
    if (PyStatus_Exception(st)) throw std::runtime_error("cannot start Python");
    scope = PyDict_New();
    PyDict_SetItemString(scope, "__builtins__", PyEval_GetBuiltins());
    std::string src = "import sys, decimal, fractions, gc\nsys.path.insert(0, '" + vf::repo() + "/python')\nimport wreport, _wreport\n"
        "class MyInt(int): pass\nclass MyFloat(float): pass\nclass MyStr(str): pass\nclass MyBytes(bytes): pass\n"
        "class BadRepr:\n    def __repr__(self): raise ZeroDivisionError('no repr')\n"
        "class Indexed:\n    def __index__(self): return 3\n    def __int__(self): return 3\n    def __float__(self): return 3.0\n"
        "def make(n): return object()\n";
    P res(PyRun_String(src.c_str(), Py_file_input, scope, scope));
    if (!res) { PyErr_Print(); throw std::runtime_error("cannot import wreport"); }
    module = eval("wreport").give(); t_var = eval("wreport.Var").give(); t_varinfo = eval("wreport.Varinfo").give(); t_vartable = eval("wreport.Vartable").give(); f_convert = eval("wreport.convert_units").give();
    api = (const wrpy_c_api*)PyCapsule_Import("_wreport._C_API", 0);
    if (!api) throw std::runtime_error("no C API");
}

// Result of something: the object, or the name of the exception
struct Out { P val; std::string exc, msg; };

Out take(PyObject* o)
{
    Out res; res.val = P(o);
    if (PyObject* e = PyErr_GetRaisedException())
    {
        P pe(e), s(PyObject_Str(e));
        res.exc = Py_TYPE(e)->tp_name;
        if (s) { const char* x = PyUnicode_AsUTF8(s); res.msg = x ? x : ""; }
        PyErr_Clear();
        if (o) res.exc += " together with a result";
    } else if (!o) res.exc = "(none)";
    return res;
}
Out call(PyObject* f, PyObject* args, PyObject* kw = nullptr) { P a(args); return take(PyObject_Call(f, a, kw)); }
Out meth(PyObject* o, const char* name, PyObject* args = nullptr, PyObject* kw = nullptr)
{
    P m(PyObject_GetAttrString(o, name));
    if (!m) { Py_XDECREF(args); return take(nullptr); }
    P a(args ? args : PyTuple_New(0));
    return take(PyObject_Call(m, a, kw));
}
Out attr(PyObject* o, const char* name) { return take(PyObject_GetAttrString(o, name)); }

std::string repr(PyObject* o) { if (!o) return "NULL"; P r(PyObject_Repr(o)); if (!r) { PyErr_Clear(); return "?"; } const char* s = PyUnicode_AsUTF8(r); if (!s) { PyErr_Clear(); return "?"; } return s; }
std::string show(const Out& o) { return o.exc.empty() ? repr(o.val) : o.exc + ": " + o.msg; }

// Exception expected for an error of the library
const char* exc_for(const wreport::error& e)
{
    switch (e.code())
    {
        case WR_ERR_NOTFOUND: return "KeyError";
        case WR_ERR_TYPE: return "TypeError";
        case WR_ERR_ALLOC: return "MemoryError";
        case WR_ERR_ODBC: return "OSError";
        case WR_ERR_HANDLES: return "SystemError";
        case WR_ERR_TOOLONG: return "ValueError";
        case WR_ERR_SYSTEM: return "OSError";
        case WR_ERR_CONSISTENCY: return "RuntimeError";
        case WR_ERR_PARSE: return "ValueError";
        case WR_ERR_WRITE: return "RuntimeError";
        case WR_ERR_REGEX: return "ValueError";
        case WR_ERR_UNIMPLEMENTED: return "NotImplementedError";
        case WR_ERR_DOMAIN: return "OverflowError";
        default: return "SystemError";
    }
}
bool exc_is(const Out& o, const std::string& want)
{
    if (o.exc == want) return true;
    // subclasses
    if (want == "ValueError") return o.exc == "UnicodeDecodeError" || o.exc == "UnicodeEncodeError" || o.exc == "UnicodeError";
    if (want == "OSError") return o.exc == "FileNotFoundError" || o.exc == "PermissionError";
    return false;
}

void want_exc(vf::Ctx& c, const Out& o, const std::string& want, const std::string& key, const std::string& what)
{
    c.check(exc_is(o, want), key, show(o) + " instead of " + want + ": " + what);
}
// Text compared through UTF-8; text that is not UTF-8 cannot be given to Python
void want_str(vf::Ctx& c, const Out& o, const std::string& want, const std::string& key, const std::string& what)
{
    P dec(PyUnicode_DecodeUTF8(want.data(), want.size(), nullptr));
    if (!dec) { PyErr_Clear(); want_exc(c, o, "ValueError", key, what); return; }
    c.check(o.exc.empty() && PyUnicode_CheckExact(o.val) && PyUnicode_Compare(o.val, dec) == 0, key, show(o) + " instead of " + repr(dec) + ": " + what);
}
void want_int(vf::Ctx& c, const Out& o, long long want, const std::string& key, const std::string& what)
{
    c.check(o.exc.empty() && PyLong_CheckExact(o.val) && PyLong_AsLongLong(o.val) == want, key, show(o) + fmt(" instead of %lld: ", want) + what);
}
void want_float(vf::Ctx& c, const Out& o, double want, const std::string& key, const std::string& what)
{
    c.check(o.exc.empty() && PyFloat_CheckExact(o.val) && (PyFloat_AsDouble(o.val) == want || (std::isnan(want) && std::isnan(PyFloat_AsDouble(o.val)))), key, show(o) + fmt(" instead of %.17g: ", want) + what);
}

std::string codename(Varcode v) { return fmt("%c%02u%03u", "BRCD"[ref::F(v)], ref::X(v), ref::Y(v)); }

// A value for the constructor
struct Val { P o; std::string what; std::function<void(Var&)> lib; std::string exc; bool any_exc = false; };

Val random_value(vf::Ctx& c, const varpool::Entry& e)
{
    vf::Rng& r = c.rng;
    const ref::BInfo& i = e.ref;
    bool num = i.kind == ref::INT || i.kind == ref::DEC;
    Val v;
    auto integer = [&](int64_t x) {
        if (x >= INT32_MIN && x <= INT32_MAX) v.lib = [x](Var& var) { var.seti(x); };
        else v.exc = "OverflowError";
    };
    unsigned k = r.below(20);
    if (k < 6)
    {
        int64_t x;
        if (num && r.chance(4, 5))
        {
            int64_t lo = i.imin(), hi = i.imax();
            x = r.chance(1, 4) ? lo : r.chance(1, 3) ? hi : r.chance(1, 6) ? (r.chance(1, 2) ? lo - 1 : hi + 1) : r.range(lo, hi);
        }
        else switch (r.below(4)) { case 0: x = r.range(-10, 10); break; case 1: x = (int64_t)r.next(); break; case 2: x = INT32_MAX + r.range(-2, 2); break; default: x = (int64_t)INT32_MIN + r.range(-2, 2); }
        v.o = P(PyLong_FromLongLong(x)); integer(x);
        if (r.chance(1, 10)) { P cls(eval("MyInt")); v.o = call(cls, Py_BuildValue("(L)", (long long)x)).val; }
        c.count("value:int");
    }
    else if (k < 11)
    {
        double d;
        if (num && r.chance(4, 5))
        {
            int64_t lo = i.imin(), hi = i.imax();
            int64_t x = r.chance(1, 4) ? lo : r.chance(1, 3) ? hi : r.chance(1, 6) ? (r.chance(1, 2) ? lo - 1 : hi + 1) : r.range(lo, hi);
            d = varpool::unscaled(x, i.scale);
        }
        else { static const double ds[] = { 0.0, -0.0, 1.5, 1e10, -1e300, 1e-300, INFINITY, -INFINITY, NAN, 273.15, 2147483647.0, 2147483648.0 }; d = ds[r.below(12)]; }
        v.o = P(PyFloat_FromDouble(d)); v.lib = [d](Var& var) { var.setd(d); };
        if (r.chance(1, 10)) { P cls(eval("MyFloat")); v.o = call(cls, Py_BuildValue("(d)", d)).val; }
        c.count("value:float");
    }
    else if (k < 16)
    {
        std::string s;
        switch (r.below(6))
        {
            case 0: s = num ? fmt("%lld", (long long)r.range(i.imin(), i.imax())) : "abc"; break;
            case 1: { unsigned n = r.below(i.len + 3); for (unsigned k = 0; k < n && k < 60; ++k) s += (char)(33 + r.below(94)); break; }
            case 2: s = ""; break;
            case 3: s = "12abc"; break;
            case 4: { static const char* us[] = { "\xc3\xa8", "caff\xc3\xa8", "\xe2\x82\xac", "\xf0\x9f\x98\x80" }; s = us[r.below(4)]; break; }
            default: { unsigned n = i.kind == ref::BIN ? (i.bit_len + 7) / 8 : r.below(i.len + 1); for (unsigned k = 0; k < n && k < 200; ++k) s += (char)('0' + r.below(10)); }
        }
        bool bytes = r.chance(1, 3);
        if (bytes && r.chance(1, 3)) { unsigned n = (i.bit_len + 7) / 8; s.clear(); for (unsigned k = 0; k < n && k < 200; ++k) s += i.kind == ref::BIN ? (char)r.below(256) : (char)(1 + r.below(255)); if (s.size() && i.kind == ref::BIN && i.bit_len % 8) s.back() &= (1 << (i.bit_len % 8)) - 1; }
        v.lib = [s](Var& var) { var.sets(s); };
        if (bytes) v.o = P(PyBytes_FromStringAndSize(s.data(), s.size()));
        else v.o = P(PyUnicode_FromStringAndSize(s.data(), s.size()));
        if (r.chance(1, 10)) { P cls(eval(bytes ? "MyBytes" : "MyStr")); v.o = call(cls, PyTuple_Pack(1, v.o.o)).val; }
        c.count(bytes ? "value:bytes" : "value:str");
    }
    else if (k < 17) { bool b = r.chance(1, 2); v.o = P(PyBool_FromLong(b)); v.lib = [b](Var& var) { var.seti(b); }; c.count("value:bool"); }
    else if (k < 18)
    {
        // numbers that are not C numbers
        static const char* xs[] = { "1 << 31", "-(1 << 31) - 1", "1 << 63", "-(1 << 63) - 1", "1 << 64", "10 ** 40", "-(10 ** 400)", "(1 << 32) + 5", "1 << 62" };
        v.o = eval(xs[r.below(9)]); v.exc = "OverflowError"; c.count("value:huge");
    }
    else
    {
        struct X { const char* src; const char* exc; };
        static const X xs[] = { {"None", "TypeError"}, {"[1]", "TypeError"}, {"{}", "TypeError"}, {"object()", "TypeError"}, {"decimal.Decimal('1.5')", "TypeError"}, {"fractions.Fraction(1, 3)", "TypeError"},
            {"(1,)", "TypeError"}, {"1j", "TypeError"}, {"bytearray(b'12')", "TypeError"}, {"memoryview(b'12')", "TypeError"}, {"wreport.Var", "TypeError"}, {"lambda: 1", "TypeError"}, {"Indexed()", "TypeError"},
            {"BadRepr()", "ZeroDivisionError"}, {"'\\udc80'", "ValueError"}, {"'a\\ud800b'", "ValueError"}, {"range(3)", "TypeError"}, {"Ellipsis", "TypeError"}, {"iter('1')", "TypeError"} };
        const X& x = xs[r.below(sizeof(xs) / sizeof(X))];
        v.o = eval(x.src); v.exc = x.exc; c.count("value:other");
    }
    v.what = repr(v.o);
    return v;
}

// Everything that can be read from Python must be what the library gives
void compare(vf::Ctx& c, PyObject* o, const Var& lib, const std::string& what, int depth = 0)
{
    vf::Rng& r = c.rng;
    Varinfo i = lib.info();
    c.check(Py_TYPE(o) == (PyTypeObject*)t_var || PyObject_IsInstance(o, t_var) == 1, "type", what);
    Var* raw = api->var(o);
    c.check(raw != nullptr, "capi-var", what);
    c.check(cmp::dump(*raw) == cmp::dump(lib), "state", cmp::dump(*raw) + " instead of " + cmp::dump(lib) + ": " + what);
    want_str(c, attr(o, "code"), codename(lib.code()), "code", what);
    Out iss = attr(o, "isset");
    c.check(iss.exc.empty() && iss.val.o == (lib.isset() ? Py_True : Py_False), "isset", show(iss) + ": " + what);
    Out info = attr(o, "info");
    c.check(info.exc.empty() && PyObject_IsInstance(info.val, t_varinfo) == 1, "info", show(info) + ": " + what);
    want_str(c, attr(info.val, "code"), codename(lib.code()), "info-code", what);
    want_str(c, attr(info.val, "unit"), i->unit, "info-unit", what);
    want_str(c, attr(info.val, "desc"), i->desc, "info-desc", what);
    want_int(c, attr(info.val, "scale"), i->scale, "info-scale", what);
    want_int(c, attr(info.val, "len"), i->len, "info-len", what);
    want_int(c, attr(info.val, "bit_ref"), i->bit_ref, "info-bit_ref", what);
    want_int(c, attr(info.val, "bit_len"), i->bit_len, "info-bit_len", what);
    static const char* types[] = { "string", "binary", "integer", "decimal" };
    unsigned t = i->type == Vartype::String ? 0 : i->type == Vartype::Binary ? 1 : i->type == Vartype::Integer ? 2 : 3;
    want_str(c, attr(info.val, "type"), types[t], "info-type", what);
    want_str(c, take(PyObject_Str(info.val)), codename(lib.code()), "info-str", what);
    want_str(c, take(PyObject_Repr(info.val)), "Varinfo('" + codename(lib.code()) + "')", "info-repr", what);
    c.count("infos-compared");

    // typed accessors
    try { int x = lib.enqi(); want_int(c, meth(o, "enqi"), x, "enqi", what); } catch (wreport::error& e) { want_exc(c, meth(o, "enqi"), exc_for(e), "enqi-error", what); }
    try { double x = lib.enqd(); want_float(c, meth(o, "enqd"), x, "enqd", what); } catch (wreport::error& e) { want_exc(c, meth(o, "enqd"), exc_for(e), "enqd-error", what); }
    if (t != 1 || !lib.isset())
        try { std::string x = lib.enqc(); want_str(c, meth(o, "enqc"), x, "enqc", what); } catch (wreport::error& e) { want_exc(c, meth(o, "enqc"), exc_for(e), "enqc-error", what); }
    // by type
    for (unsigned k = 0; k < 3; ++k)
    {
        P def(PyList_New(0));
        Py_ssize_t refs = Py_REFCNT(def.o);
        P kw(PyDict_New()); PyDict_SetItemString(kw, "default", def);
        Out g = k == 0 ? meth(o, "enq") : k == 1 ? (r.chance(1, 2) ? meth(o, "get", PyTuple_Pack(1, def.o)) : meth(o, "get", nullptr, kw)) : meth(o, "get");
        kw = P();
        const char* key = k == 0 ? "enq" : "get";
        if (!lib.isset())
        {
            if (k == 0) want_exc(c, g, "KeyError", "enq-unset", what);
            else if (k == 1) c.check(g.val.o == def.o && Py_REFCNT(def.o) == refs + 1, "get-default", show(g) + fmt(" (%zd references): ", Py_REFCNT(def.o)) + what);
            else c.check(g.val.o == Py_None, "get-default", show(g) + ": " + what);
            c.count("unset-read");
            continue;
        }
        switch (t)
        {
            case 0: want_str(c, g, lib.enqc(), key, what); break;
            case 1: { std::string s = lib.enqs(); c.check(g.exc.empty() && PyBytes_CheckExact(g.val) && std::string(PyBytes_AS_STRING(g.val.o), PyBytes_GET_SIZE(g.val.o)) == s, key, show(g) + " instead of " + vf::hex(s) + ": " + what); break; }
            case 2: want_int(c, g, lib.enqi(), key, what); break;
            default: want_float(c, g, lib.enqd(), key, what); break;
        }
    }
    // text
    want_str(c, meth(o, "format"), lib.format(""), "format", what);
    want_str(c, meth(o, "format", Py_BuildValue("(s)", "n/a")), lib.format("n/a"), "format-default", what);
    want_str(c, take(PyObject_Str(o)), lib.format("None"), "str", what);
    std::string rep = "Var('" + codename(lib.code()) + "', " + (!lib.isset() ? "None" : t < 2 ? "'" + lib.format() + "'" : lib.format()) + ")";
    want_str(c, take(PyObject_Repr(o)), rep, "repr", what);
    c.count("vars-compared");
    if (depth) return;
    // attributes
    Out as = meth(o, "get_attrs");
    c.check(as.exc.empty() && PyList_CheckExact(as.val), "get_attrs", show(as) + ": " + what);
    unsigned n = 0;
    for (const Var* a = lib.next_attr(); a; a = a->next_attr(), ++n)
    {
        c.check(n < (unsigned)PyList_GET_SIZE(as.val.o), "get_attrs-missing", codename(a->code()) + ": " + what);
        Var alone(a->info()); alone.setval(*a);
        compare(c, PyList_GET_ITEM(as.val.o, n), alone, "attribute of " + what, 1);
        Out x = meth(o, "enqa", Py_BuildValue("(s)", codename(a->code()).c_str()));
        c.check(x.exc.empty() && x.val.o != Py_None, "enqa", show(x) + ": " + what);
        compare(c, x.val, alone, "attribute of " + what, 1);
        c.count("attrs-compared");
    }
    c.check(n == (unsigned)PyList_GET_SIZE(as.val.o), "get_attrs-extra", show(as) + ": " + what);
    Varcode absent = r.below(0x4000);
    if (!lib.enqa(absent)) { Out x = meth(o, "enqa", Py_BuildValue("(s)", codename(absent).c_str())); c.check(x.exc.empty() && x.val.o == Py_None, "enqa-absent", show(x) + ": " + what); }
}

struct Pair { P o; std::unique_ptr<Var> lib; std::string what; };

Out construct(vf::Ctx& c, PyObject* info, PyObject* val, const char* cls = nullptr)
{
    P klass; if (cls) klass = eval(cls); else { Py_INCREF(t_var); klass = P(t_var); }
    if (c.rng.chance(1, 4))
    {
        P kw(PyDict_New()); PyDict_SetItemString(kw, "varinfo", info);
        if (val) PyDict_SetItemString(kw, "value", val);
        return call(klass, PyTuple_New(0), kw);
    }
    return call(klass, val ? PyTuple_Pack(2, info, val) : PyTuple_Pack(1, info));
}

bool create(vf::Ctx& c, varpool::Synth& synth, Pair& res)
{
    vf::Rng& r = c.rng;
    varpool::Entry e = varpool::any(r, synth);
    P info(api->varinfo_create(e.info));
    if (r.chance(1, 8))
    {
        // unset
        Out o = construct(c, info, nullptr);
        res.what = "Var(" + e.ref.str() + ")";
        c.check(o.exc.empty(), "create-unset", show(o) + ": " + res.what);
        res.o = o.val; res.lib.reset(new Var(e.info));
        c.count("created:unset");
        return true;
    }
    Val v = random_value(c, e);
    res.what = "Var(" + e.ref.str() + ", " + v.what + ")";
    c.note(res.what); c.distinct(vf::fnv(res.what));
    if (c.case_no < 4) c.sample(res.what);
    std::unique_ptr<Var> lib(new Var(e.info));
    std::string exc = v.exc;
    // Under the same options
    auto o1 = options::local_override(options::var_silent_domain_errors, r.chance(1, 10));
    auto o2 = options::local_override(options::var_clamp_domain_errors, r.chance(1, 10));
    if (v.lib) try { v.lib(*lib); } catch (wreport::error& x) { exc = exc_for(x); }
    Py_ssize_t refs = Py_REFCNT(v.o.o), irefs = Py_REFCNT(info.o);
    Out o = construct(c, info, v.o, nullptr);
    if (!exc.empty())
    {
        want_exc(c, o, exc, "create-error", res.what);
        c.count("refused:" + exc);
    } else {
        c.check(o.exc.empty(), "create", show(o) + ": " + res.what);
        c.count("created");
    }
    c.check(Py_REFCNT(v.o.o) == refs && Py_REFCNT(info.o) == irefs, "references", fmt("%zd and %zd references instead of %zd and %zd: ", Py_REFCNT(v.o.o), Py_REFCNT(info.o), refs, irefs) + res.what);
    if (!exc.empty())
    {
        // through the C interface
        Var other(e.info);
        int rc = api->var_value_from_python(v.o, other);
        c.check(rc == -1 && PyErr_Occurred(), "capi-value-from-python", res.what);
        PyErr_Clear();
        return false;
    }
    Var other(e.info);
    int rc = api->var_value_from_python(v.o, other);
    c.check(rc == 0 && !PyErr_Occurred() && cmp::dump(other) == cmp::dump(*lib), "capi-value-from-python", res.what);
    // What is stored, independently of the library
    if (PyLong_CheckExact(v.o) && lib->isset() && !options::var_clamp_domain_errors && (e.ref.kind == ref::INT || e.ref.kind == ref::DEC))
        c.check(api->var(o.val)->enqi() == PyLong_AsLongLong(v.o), "stored-int", fmt("%d: ", api->var(o.val)->enqi()) + res.what);
    res.o = o.val; res.lib = std::move(lib);
    return true;
}

void var_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    varpool::Synth synth;
    std::vector<Pair> pool;
    unsigned want = 1 + r.below(4);
    for (unsigned tries = 0; tries < 12 && pool.size() < want; ++tries)
    {
        Pair p;
        if (!create(c, synth, p)) continue;
        compare(c, p.o, *p.lib, p.what);
        pool.push_back(std::move(p));
    }
    for (unsigned step = 0, n = r.below(14); step < n && !pool.empty(); ++step)
    {
        unsigned k = r.below(pool.size());
        Pair& a = pool[k];
        Pair& b = pool[r.below(pool.size())];
        std::string what = a.what + fmt(" step %u", step);
        switch (r.below(12))
        {
            case 0: case 1: case 2: // set an attribute
            {
                Out o; std::string exc;
                if (&a == &b && r.chance(1, 2)) break;
                try { a.lib->seta(*b.lib); } catch (wreport::error& e) { exc = exc_for(e); }
                P kw(PyDict_New()); PyDict_SetItemString(kw, "var", b.o);
                o = r.chance(1, 2) ? meth(a.o, "seta", PyTuple_Pack(1, b.o.o)) : meth(a.o, "seta", nullptr, kw);
                if (exc.empty()) c.check(o.exc.empty() && o.val.o == Py_None, "seta", show(o) + ": " + what); else want_exc(c, o, exc, "seta-error", what);
                c.count("seta");
                break;
            }
            case 3: // remove one
            {
                Varcode code = a.lib->next_attr() && r.chance(2, 3) ? a.lib->next_attr()->code() : (Varcode)r.below(0x4000);
                a.lib->unseta(code);
                Out o = meth(a.o, "unseta", Py_BuildValue("(s)", codename(code).c_str()));
                c.check(o.exc.empty() && o.val.o == Py_None, "unseta", show(o) + ": " + what);
                c.count("unseta");
                break;
            }
            case 4: // an attribute lives on its own
            {
                if (!a.lib->next_attr()) break;
                const Var* x = a.lib->next_attr();
                Pair p; p.what = "attribute of " + a.what;
                p.lib.reset(new Var(x->info())); p.lib->setval(*x);
                p.o = meth(a.o, "enqa", Py_BuildValue("(s)", codename(x->code()).c_str())).val;
                if (pool.size() < 8) pool.push_back(std::move(p));
                break;
            }
            case 5: // copy
            {
                Out o = construct(c, a.o, r.chance(1, 5) ? Py_None : nullptr);
                c.check(o.exc.empty(), "copy", show(o) + ": " + what);
                Pair p; p.o = o.val; p.lib.reset(new Var(*a.lib)); p.what = "copy of " + a.what;
                c.check(p.o.o != a.o.o, "copy-same", what);
                compare(c, p.o, *p.lib, p.what);
                c.count("copies");
                if (pool.size() < 8) pool.push_back(std::move(p));
                break;
            }
            case 6: // forget one
                if (pool.size() > 1) pool.erase(pool.begin() + k);
                continue;
            case 7: // equality
            {
                bool eq = *a.lib == *b.lib;
                for (int op : { Py_EQ, Py_NE })
                {
                    Out o = take(PyObject_RichCompare(a.o, b.o, op));
                    c.check(o.exc.empty() && o.val.o == ((op == Py_EQ) == eq ? Py_True : Py_False), "equality", show(o) + ": " + what + " and " + b.what);
                }
                Out o = take(PyObject_RichCompare(a.o, b.o, r.chance(1, 2) ? Py_LT : Py_GE));
                want_exc(c, o, "TypeError", "ordering", what);
                static const char* others[] = { "None", "1", "'x'", "object()", "wreport.Var" };
                P x(eval(others[r.below(5)]));
                o = take(PyObject_RichCompare(a.o, x, Py_EQ)); c.check(o.val.o == Py_False, "equality-other", show(o) + ": " + what);
                o = take(PyObject_RichCompare(a.o, x, Py_NE)); c.check(o.val.o == Py_True, "equality-other", show(o) + ": " + what);
                c.count(eq ? "equal" : "different");
                break;
            }
            case 8: // C interface
            {
                Var v(*a.lib);
                Pair p; p.what = "C interface from " + a.what;
                switch (r.below(5))
                {
                    case 0: p.o = P(api->var_create_copy(*a.lib)); p.lib.reset(new Var(*a.lib)); break;
                    case 1: p.lib.reset(new Var(*a.lib)); { Var m(*a.lib); p.o = P(api->var_create_move(std::move(m))); } break;
                    case 2: p.lib.reset(new Var(a.lib->info())); p.lib->setval(*a.lib); p.o = P(api->var_create_v(a.lib->info(), *a.lib)); break;
                    case 3: p.lib.reset(new Var(a.lib->info())); p.o = P((PyObject*)api->var_create(a.lib->info())); break;
                    default:
                        p.lib.reset(new Var(a.lib->info()));
                        if (!a.lib->isset()) p.o = P((PyObject*)api->var_create(a.lib->info()));
                        else if (a.lib->info()->type == Vartype::Integer || a.lib->info()->type == Vartype::Decimal)
                        {
                            p.lib->seti(a.lib->enqi());
                            p.o = P(r.chance(1, 2) ? api->var_create_i(a.lib->info(), a.lib->enqi()) : r.chance(1, 2) ? api->var_create_d(a.lib->info(), a.lib->enqd()) : api->var_create_c(a.lib->info(), a.lib->enqc()));
                            if (p.o) { Var* raw = api->var(p.o); if (raw->isset() && raw->enqi() != a.lib->enqi()) c.failstop("capi-create", cmp::dump(*raw) + ": " + what); }
                        } else { p.lib->sets(a.lib->enqs()); p.o = P(api->var_create_s(a.lib->info(), a.lib->enqs())); }
                }
                c.check(p.o && !PyErr_Occurred(), "capi-create", what);
                compare(c, p.o, *p.lib, p.what);
                c.check(api->var(a.o) != nullptr, "capi-var", what);
                P notvar(PyLong_FromLong(77777));
                c.check(api->var(notvar) == nullptr && PyErr_Occurred() && PyErr_ExceptionMatches(PyExc_TypeError), "capi-var-check", what);
                PyErr_Clear();
                Out o = take(api->var_value_to_python(*a.lib)), o2 = meth(a.o, "enq");
                c.check(o.exc == o2.exc && (!o.exc.empty() || PyObject_RichCompareBool(o.val, o2.val, Py_EQ) == 1), "capi-value-to-python", show(o) + " and " + show(o2) + ": " + what);
                c.count("capi");
                if (pool.size() < 8) pool.push_back(std::move(p));
                break;
            }
            case 9: case 10: // wrong calls
            {
                struct X { const char* m; const char* args; };
                static const X xs[] = { {"seta", "()"}, {"seta", "(None,)"}, {"seta", "(1,)"}, {"seta", "('B01001',)"}, {"seta", "(wreport.Var,)"}, {"seta", "(object(), 2)"},
                    {"enqa", "()"}, {"enqa", "(None,)"}, {"enqa", "(1001,)"}, {"enqa", "(b'B01001',)"}, {"unseta", "()"}, {"unseta", "(None,)"}, {"unseta", "([],)"},
                    {"enqi", "(1,)"}, {"enqd", "(1,)"}, {"enqc", "(1,)"}, {"enq", "(1,)"}, {"get", "(1, 2)"}, {"get_attrs", "(1,)"}, {"format", "(1,)"}, {"format", "(None,)"}, {"format", "('a', 'b')"} };
                const X& x = xs[r.below(sizeof(xs) / sizeof(X))];
                Out o = meth(a.o, x.m, eval(x.args).give());
                want_exc(c, o, "TypeError", std::string("wrong-call:") + x.m, what + x.args);
                static const char* bad[] = { "'enqa', ''", "'enqa', 'foo'", "'enqa', 'B'", "'unseta', ''", "'unseta', 'Z01001'", "'enqa', 'B01001\\0'", "'enqa', '\\udc80'" };
                (void)bad;
                c.count("wrong-calls");
                break;
            }
            case 11: // read-only, no new members
            {
                P one(PyLong_FromLong(1));
                static const char* names[] = { "code", "isset", "info" };
                const char* n = names[r.below(3)];
                int rc = PyObject_SetAttrString(a.o, n, one);
                Out o = take(nullptr);
                c.check(rc == -1 && (o.exc == "AttributeError" || o.exc == "TypeError"), "read-only", what);
                if (r.chance(1, 4)) PyGC_Collect();
                break;
            }
        }
        for (auto& p : pool) if (r.chance(1, 3)) compare(c, p.o, *p.lib, p.what);
    }
    for (auto& p : pool) compare(c, p.o, *p.lib, p.what);
}

// ------------------------------------------------------ tables, units, types

void table_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    struct T { P o; const Vartable* lib; std::string what; };
    T t;
    Out o;
    std::string exc;
    unsigned kind = r.below(8);
    auto files = ref::table_files('B');
    std::vector<std::string> good;
    for (auto& p : files) { size_t sl = p.rfind('/'); bool crex = p.size() - sl - 1 == 11; if ((crex ? ref::load_crex_b(p) : ref::load_bufr_b(p)).ok) good.push_back(p); }
    std::string path = r.pick(good);
    size_t sl = path.rfind('/');
    bool fcrex = path.size() - sl - 1 == 11;
    std::string base = path.substr(sl + 1, path.size() - sl - 5);
    if (r.chance(1, 8)) { base = "B9999999999999"; path = "/nonexistent/" + base; fcrex = r.chance(1, 2); }
    switch (kind)
    {
        case 0: case 1:
            t.what = (kind ? "get by name " : "load ") + (kind ? base : path);
            try { if (kind) t.lib = fcrex ? Vartable::get_crex(base) : Vartable::get_bufr(base); else t.lib = fcrex ? Vartable::load_crex(path) : Vartable::load_bufr(path); }
            catch (wreport::error& e) { exc = exc_for(e); } catch (std::exception& e) { exc = "RuntimeError"; }
            if (kind && r.chance(1, 2)) { P kw(Py_BuildValue("{s:s}", "basename", base.c_str())); o = meth(t_vartable, fcrex ? "get_crex" : "get_bufr", nullptr, kw); }
            else o = meth(t_vartable, fmt("%s_%s", kind ? "get" : "load", fcrex ? "crex" : "bufr").c_str(), Py_BuildValue("(s)", (kind ? base : path).c_str()));
            break;
        case 2: case 3: case 4: // BUFR by numbers
        {
            int ce = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.pick(std::vector<int>{98, 85, 254, 255}) : r.below(300), sc = r.chance(2, 3) ? 0 : r.below(10), mt = r.chance(4, 5) ? 0 : r.below(12), mv = r.chance(1, 8) ? r.below(256) : r.below(42), lv = r.chance(2, 3) ? 0 : r.below(5);
            t.what = fmt("get_bufr %d %d %d %d %d", ce, sc, mt, mv, lv);
            try { t.lib = Vartable::get_bufr(BufrTableID(ce, sc, mt, mv, lv)); } catch (wreport::error& e) { exc = exc_for(e); }
            P kw(PyDict_New());
            auto put = [&](const char* k, int v, int def) { if (v != def || r.chance(1, 2)) { P x(PyLong_FromLong(v)); PyDict_SetItemString(kw, k, x); } };
            put("originating_centre", ce, 0); put("originating_subcentre", sc, 0); put("master_table_number", mt, 0); put("master_table_version_number", mv, -2); put("master_table_version_number_local", lv, 0);
            if (!PyDict_GetItemString(kw, "master_table_version_number")) { P x(PyLong_FromLong(mv)); PyDict_SetItemString(kw, "master_table_version_number", x); }
            o = meth(t_vartable, "get_bufr", nullptr, kw);
            break;
        }
        case 5: case 6: // CREX by numbers
        {
            int ed = r.chance(1, 2) ? 2 : 1 + r.below(2), ce = r.chance(1, 3) ? 0 : r.chance(1, 2) ? r.pick(std::vector<int>{98, 85, 254, 255}) : r.below(300), sc = r.chance(2, 3) ? 0 : r.below(10), mt = r.chance(4, 5) ? 0 : r.below(12), mv = r.below(12), bv = r.below(42), lv = r.chance(2, 3) ? 0 : r.below(5);
            bool has_mv = r.chance(2, 3), has_bv = !has_mv || r.chance(1, 2);
            t.what = fmt("get_crex %d %d %d %d %d %d %d (%d%d)", ed, ce, sc, mt, mv, bv, lv, has_mv, has_bv);
            try { t.lib = Vartable::get_crex(CrexTableID(ed, ce, sc, mt, has_mv ? mv : 0xff, has_bv ? bv : 0xff, lv)); } catch (wreport::error& e) { exc = exc_for(e); }
            P kw(PyDict_New());
            auto put = [&](const char* k, int v, int def) { if (v != def || r.chance(1, 2)) { P x(PyLong_FromLong(v)); PyDict_SetItemString(kw, k, x); } };
            put("edition_number", ed, 2); put("originating_centre", ce, 0); put("originating_subcentre", sc, 0); put("master_table_number", mt, 0); put("master_table_version_number_local", lv, 0);
            if (has_mv) { P x(PyLong_FromLong(mv)); PyDict_SetItemString(kw, "master_table_version_number", x); }
            if (has_bv) { P x(PyLong_FromLong(bv)); PyDict_SetItemString(kw, "master_table_version_number_bufr", x); }
            o = meth(t_vartable, "get_crex", nullptr, kw);
            break;
        }
        default:
        {
            struct X { const char* src; const char* exc; };
            static const X xs[] = { {"wreport.Vartable.get_bufr()", "ValueError"}, {"wreport.Vartable.get_crex()", "ValueError"}, {"wreport.Vartable()", "NotImplementedError"}, {"wreport.Varinfo()", "NotImplementedError"},
                {"wreport.Var()", "TypeError"}, {"wreport.Var(1)", "ValueError"}, {"wreport.Var(None)", "ValueError"}, {"wreport.Var('B01001', 1)", "ValueError"}, {"wreport.Var(wreport.Vartable.get_bufr(master_table_version_number=24)['B01001'], 1, 2)", "TypeError"},
                {"wreport.Vartable.get_bufr(master_table_version_number='x')", "TypeError"}, {"wreport.Vartable.get_bufr(1)", "TypeError"}, {"wreport.Vartable.load_bufr()", "TypeError"}, {"wreport.Vartable.load_bufr(None)", "TypeError"},
                {"wreport.Vartable.get_bufr(master_table_version_number=1<<40)", "OverflowError"}, {"wreport.Vartable.get_bufr(wrong=1)", "TypeError"}, {"wreport.convert_units()", "TypeError"}, {"wreport.convert_units('K', 'C')", "TypeError"},
                {"wreport.convert_units('K', 'C', 'x')", "TypeError"}, {"wreport.convert_units(None, 'C', 1)", "TypeError"}, {"wreport.convert_units('K', 1, 1)", "TypeError"}, {"wreport.convert_units('K', 'C', 10**400)", "OverflowError"},
                {"wreport.convert_units('K', 'nothing', 1)", "NotImplementedError"}, {"wreport.Var(BadRepr())", "ValueError"}, {"wreport.Var(wreport.Var)", "ValueError"} };
            const X& x = xs[r.below(sizeof(xs) / sizeof(X))];
            c.note(x.src);
            want_exc(c, take(PyRun_String(x.src, Py_eval_input, scope, scope)), x.exc, "wrong-call", x.src);
            c.count("wrong-calls"); c.distinct(vf::fnv(x.src));
            return;
        }
    }
    c.note(t.what); c.distinct(vf::fnv(t.what));
    if (!exc.empty()) { want_exc(c, o, exc, "table-error", t.what); c.count("tables-refused"); return; }
    c.check(o.exc.empty() && PyObject_IsInstance(o.val, t_vartable) == 1, "table", show(o) + ": " + t.what);
    c.count("tables");
    Out pn = attr(o.val, "pathname");
    c.check(pn.exc.empty(), "pathname", show(pn) + ": " + t.what);
    want_str(c, take(PyObject_Str(pn.val)), t.lib->path().string(), "pathname", t.what);
    want_str(c, take(PyObject_Str(o.val)), t.lib->path().string(), "table-str", t.what);
    want_str(c, take(PyObject_Repr(o.val)), "Vartable('" + t.lib->path().string() + "')", "table-repr", t.what);
    // Lookups, compared with the file
    std::string tpath = t.lib->path().string();
    size_t tsl = tpath.rfind('/');
    bool from_crex_file = tpath.size() - tsl - 1 == 11;
    bool as_crex = kind <= 1 ? fcrex : kind >= 5;
    const ref::TableFile* f = nullptr;
    if (as_crex == from_crex_file) f = as_crex ? &ref::load_crex_b(tpath) : &ref::load_bufr_b(tpath);
    for (unsigned k = 0; k < 8; ++k)
    {
        Varcode code = f && f->order.size() && r.chance(2, 3) ? r.pick(f->order).code : (Varcode)r.below(0x4000);
        std::string name = codename(code), what = name + " in " + t.what;
        if (r.chance(1, 8)) { static const char* odd[] = { "", "B", "B0100", "X01001", "001001", "B1", "B01001x", "b01001", "\xc3\xa8" }; name = odd[r.below(9)]; what = vf::jstr(name) + " in " + t.what; }
        std::string e; Varinfo vi = nullptr; bool in = false; std::string ein;
        try { vi = t.lib->query(varcode_parse(name.c_str())); } catch (wreport::error& x) { e = exc_for(x); }
        try { in = t.lib->contains(varcode_parse(name.c_str())); } catch (wreport::error& x) { ein = exc_for(x); }
        P key(PyUnicode_FromString(name.c_str()));
        Out g = take(PyObject_GetItem(o.val, key));
        if (!e.empty()) { want_exc(c, g, e, "lookup-error", what); c.count("lookups-refused"); }
        else
        {
            c.check(g.exc.empty(), "lookup", show(g) + ": " + what);
            Pair p; p.lib.reset(new Var(vi)); p.o = call(t_var, PyTuple_Pack(1, g.val.o)).val;
            compare(c, p.o, *p.lib, what, 1);
            if (f)
            {
                const ref::BInfo& b = f->b.at(vi->code);
                want_str(c, attr(g.val, "unit"), ref::utf8_cut(b.unit, 23), "lookup-unit", what);
                { std::string d = ref::utf8_cut(b.desc, 63), tr = d; while (!tr.empty() && tr.back() == ' ') tr.pop_back(); want_str(c, attr(g.val, "desc"), tr == vi->desc ? tr : d, "lookup-desc", what); }
                want_int(c, attr(g.val, "scale"), b.scale, "lookup-scale", what);
                want_int(c, attr(g.val, "len"), b.len, "lookup-len", what);
                want_int(c, attr(g.val, "bit_len"), b.bit_len, "lookup-bit_len", what);
                want_int(c, attr(g.val, "bit_ref"), b.bit_ref, "lookup-bit_ref", what);
                want_str(c, attr(g.val, "type"), ref::kind_name(b.kind), "lookup-type", what);
            }
            c.count("lookups");
        }
        int rc = PySequence_Contains(o.val, key);
        Out ci = take(nullptr);
        if (!ein.empty()) c.check(rc == -1 && exc_is(ci, ein), "contains-error", what);
        else c.check(rc == (in ? 1 : 0) && ci.exc == "(none)", "contains", fmt("%d: ", rc) + what);
    }
    static const char* badkeys[] = { "None", "1", "b'B01001'", "1.5", "object()", "('B01001',)" };
    P key(eval(badkeys[r.below(6)]));
    want_exc(c, take(PyObject_GetItem(o.val, key)), "TypeError", "bad-key", t.what);
    int rc = PySequence_Contains(o.val, key);
    want_exc(c, take(nullptr), "TypeError", "bad-key-contains", t.what + fmt(" %d", rc));
    // Assignments are refused
    P one(PyLong_FromLong(1)), k2(PyUnicode_FromString("B01001"));
    rc = PyObject_SetItem(o.val, k2, one);
    c.check(rc == -1, "table-assigned", t.what); PyErr_Clear();
}

void units_case(vf::Ctx& c)
{
    vf::Rng& r = c.rng;
    static std::vector<std::string> units;
    if (units.empty())
    {
        std::set<std::string> all = { "K", "C", "C/10", "M", "FT", "KM", "PA", "HPA", "KPA", "NBAR", "MS", "M/S", "KMH", "KNOT", "S", "SECOND", "MINUTE", "HOUR", "DAY", "MONTH", "YEAR", "DEGREE", "DEGREE TRUE", "degree true", "RAD", "UNKNOWN", "", "NUMERIC", "CODE TABLE", "CODE TABLE 8001", "WMO CODE TABLE 4677", "BUFR TABLE 20003", "OKTAS", "%", "MM", "KGM-2", "KGM**-2", "KG/M**2", "JM-2", "J/M**2", "nope" };
        for (auto& p : ref::table_files('B')) if (ref::load_bufr_b(p).ok) for (auto& i : ref::load_bufr_b(p).order) all.insert(i.unit);
        for (auto& p : ref::table_files('B')) { size_t sl = p.rfind('/'); if (p.size() - sl - 1 == 11 && ref::load_crex_b(p).ok) for (auto& i : ref::load_crex_b(p).order) all.insert(i.unit); }
        units.assign(all.begin(), all.end());
    }
    std::string from = r.pick(units), to = r.chance(1, 6) ? from : r.pick(units);
    static const std::vector<std::pair<const char*, const char*>> known = { {"K", "C"}, {"C", "K"}, {"M", "FT"}, {"PA", "HPA"}, {"M/S", "KNOT"}, {"S", "HOUR"}, {"HOUR", "S"}, {"DEGREE TRUE", "RAD"}, {"J/M**2", "MJ/M**2"}, {"K", "C/10"}, {"PA", "KPA"} };
    if (r.chance(1, 2)) { auto& k = known[r.below(known.size())]; from = k.first; to = k.second; }
    if (from.find('\0') != std::string::npos || to.find('\0') != std::string::npos) return;
    double v; static const double ds[] = { 0, 1, -1, 273.15, 1e10, -1e-10, INFINITY, NAN, 100, 3600 };
    v = r.chance(1, 2) ? ds[r.below(10)] : (r.real() - 0.5) * std::pow(10, r.range(-5, 8));
    std::string what = fmt("convert_units(%s, %s, %.17g)", from.c_str(), to.c_str(), v);
    c.note(what); c.distinct(vf::fnv(what));
    P uf(PyUnicode_FromString(from.c_str())), ut(PyUnicode_FromString(to.c_str())), pv(PyFloat_FromDouble(v));
    if (!uf || !ut) { PyErr_Clear(); return; }
    if (r.chance(1, 4) && v == std::floor(v) && std::fabs(v) < 1e9) pv = P(PyLong_FromLong((long)v));
    std::string exc; double res = 0;
    try { res = convert_units(from.c_str(), to.c_str(), v); } catch (wreport::error& e) { exc = exc_for(e); }
    Out o;
    if (r.chance(1, 3)) { P kw(Py_BuildValue("{s:O,s:O,s:O}", "from_unit", uf.o, "to_unit", ut.o, "value", pv.o)); o = call(f_convert, PyTuple_New(0), kw); }
    else o = call(f_convert, PyTuple_Pack(3, uf.o, ut.o, pv.o));
    if (!exc.empty()) { want_exc(c, o, exc, "convert-error", what); c.count("conversions-refused"); }
    else { want_float(c, o, res, "convert", what); c.count("conversions"); }
}

void py_case(vf::Ctx& c)
{
    notes::Collect collect(notes_out);
    c.check(!PyErr_Occurred(), "pending-exception", "left by an earlier case");
    switch (c.rng.below(8))
    {
        case 0: table_case(c); break;
        case 1: units_case(c); units_case(c); break;
        default: var_case(c);
    }
    c.check(!PyErr_Occurred(), "pending-exception", "left by this case");
}
vf::Reg r1("python", py_case, setup);

}
