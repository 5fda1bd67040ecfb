#include "vf.h"
#include <cstdarg>
#include <cstdlib>
#include <csignal>
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/stat.h>
#include <fcntl.h>
#include <unistd.h>
#include <typeinfo>
#include <cxxabi.h>
#include <fstream>
#include <wreport/error.h>
#include <valgrind/memcheck.h>

namespace vf {

bool in_memcheck() { static const bool res = RUNNING_ON_VALGRIND; return res; }
void defined(Ctx& ctx, const void* p, size_t size, const char* what)
{
    if (!size || !in_memcheck()) return;
    std::vector<unsigned char> bits(size);
    if (VALGRIND_GET_VBITS(p, bits.data(), size) != 1) { ctx.fail(std::string("unreadable:") + what, what); return; }
    VALGRIND_MAKE_MEM_DEFINED(bits.data(), size);
    for (size_t i = 0; i < size; ++i)
        if (bits[i])
        {
            VALGRIND_MAKE_MEM_DEFINED(p, size);
            ctx.fail(std::string("uninitialised:") + what, fmt("byte %zu of %zu of %s comes from memory that was never initialised", i, size, what));
            return;
        }
    ctx.count("bytes-defined", size);
}

struct Status
{
    volatile uint64_t magic, case_no, running, bounded, phase;
    char note[4000];
};
static Status dummy_status;
static Status* status = &dummy_status;

static std::vector<Mode>& modes() { static std::vector<Mode> m; return m; }
void register_mode(const char* name, CaseFn fn, void (*setup)(Ctx&)) { modes().push_back(Mode{name, fn, setup}); }

std::string fmt(const char* f, ...)
{
    va_list ap; va_start(ap, f);
    char* b = nullptr; if (vasprintf(&b, f, ap) < 0) b = nullptr;
    va_end(ap);
    std::string r(b ? b : ""); free(b); return r;
}
std::string hex(const std::string& s, size_t max)
{
    std::string r; char b[4];
    for (size_t i = 0; i < s.size() && i < max; ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); r += b; }
    if (s.size() > max) r += "...";
    return r;
}
std::string jstr(const std::string& s)
{
    std::string r = "\""; char b[8];
    for (unsigned char c : s)
    {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c < 32 || c >= 127) { snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
void Ctx::fail(const std::string& key, const std::string& detail)
{
    if (fail_count[key]++ >= 3) return;
    fprintf(out, "{\"type\":\"fail\",\"case\":%llu,\"key\":%s,\"detail\":%s}\n", (unsigned long long)case_no,
            jstr(key).c_str(), jstr(detail.substr(0, 6000)).c_str());
    fflush(out);
    if (replay) fprintf(stderr, "FAIL %s: %s\n", key.c_str(), detail.c_str());
}
void Ctx::set_bounded(bool v) { status->bounded = v; }
void Ctx::note(const std::string& s) { size_t n = std::min(s.size(), sizeof(status->note) - 1); memcpy(status->note, s.data(), n); status->note[n] = 0; if (replay) fprintf(stderr, "note: %s\n", s.c_str()); }
void Ctx::phase(unsigned p) { status->phase = p; }

std::string repo() { const char* r = getenv("VERIF_REPO"); return r ? r : "/repo"; }
std::string read_file(const std::string& path)
{
    std::ifstream in(path, std::ios::binary);
    if (!in) throw std::runtime_error("cannot read " + path);
    std::stringstream ss; ss << in.rdbuf(); return ss.str();
}
static ssize_t null_write(void*, const char*, size_t n) { return n; }
FILE* devnull()
{
    static FILE* f = nullptr;
    if (!f) { cookie_io_functions_t io{nullptr, null_write, nullptr, nullptr}; f = fopencookie(nullptr, "w", io); }
    return f;
}

static void on_prof(int) { static const char m[] = "\nVERIF-CPU-LIMIT\n"; (void)!write(2, m, sizeof(m) - 1); _exit(97); }

static std::string demangle(const char* n) { int st; char* d = abi::__cxa_demangle(n, 0, 0, &st); std::string r = d ? d : n; free(d); return r; }

}

using namespace vf;

// The program built into an alternative driver
extern "C" int vf_alt_main(int argc, char** argv) __attribute__((weak));

// usage: driver MODE SEED START STEP END OUT STATUS CPU_LIMIT
int main(int argc, char** argv)
{
    if (vf_alt_main && argc > 1 && !strcmp(argv[1], "--as-wrep")) return vf_alt_main(argc - 1, argv + 1);
    if (argc < 9) { for (auto& m : modes()) puts(m.name); return 2; }
    std::string mname = argv[1];
    uint64_t seed = strtoull(argv[2], 0, 10), start = strtoull(argv[3], 0, 10), step = strtoull(argv[4], 0, 10), end = strtoull(argv[5], 0, 10);
    Ctx ctx; ctx.seed = seed;
    ctx.out = fopen(argv[6], "a");
    if (!ctx.out) { perror(argv[6]); return 3; }
    if (strcmp(argv[7], "-") != 0)
    {
        int fd = open(argv[7], O_RDWR | O_CREAT, 0600);
        if (fd < 0 || ftruncate(fd, sizeof(Status)) < 0) { perror(argv[7]); return 3; }
        status = (Status*)mmap(0, sizeof(Status), PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        if (status == MAP_FAILED) return 3;
    } else ctx.replay = true;
    int cpu = atoi(argv[8]);
    signal(SIGPROF, on_prof);
    const Mode* mode = nullptr;
    for (auto& m : modes()) if (mname == m.name) mode = &m;
    if (!mode) { fprintf(stderr, "unknown mode %s\n", mname.c_str()); return 3; }
    status->running = 0;
    try { if (mode->setup) mode->setup(ctx); }
    catch (wreport::error& e) { fprintf(stderr, "VERIF-SETUP-LIBRARY-ERROR %s: %s\n", demangle(typeid(e).name()).c_str(), e.what()); return 3; }
    catch (std::exception& e) { fprintf(stderr, "VERIF-SETUP-ERROR %s: %s\n", demangle(typeid(e).name()).c_str(), e.what()); return 3; }
    for (uint64_t i = start; i < end; i += step)
    {
        status->case_no = i; status->bounded = 1; status->phase = 0; status->note[0] = 0; status->running = 1;
        itimerval tv{{0, 0}, {cpu, 0}}; setitimer(ITIMER_PROF, &tv, 0);
        ctx.case_no = i;
        ctx.rng = Rng(fnv(mname) ^ (seed * 0x9e3779b97f4a7c15ull) ^ (i * 0xd1342543de82ef95ull));
        try { mode->fn(ctx); }
        catch (Stop&) {}
        catch (wreport::error& e) { ctx.fail(fmt("unexpected-error:%s", demangle(typeid(e).name()).c_str()), e.what()); }
        catch (std::exception& e) { ctx.fail(fmt("unexpected-exception:%s", demangle(typeid(e).name()).c_str()), e.what()); }
        ctx.count("cases");
    }
    status->running = 0;
    itimerval tv{{0, 0}, {0, 0}}; setitimer(ITIMER_PROF, &tv, 0);
    for (auto& c : ctx.counters) fprintf(ctx.out, "{\"type\":\"count\",\"name\":%s,\"n\":%llu}\n", jstr(c.first).c_str(), (unsigned long long)c.second);
    for (auto& s : ctx.samples) fprintf(ctx.out, "{\"type\":\"sample\",\"text\":%s}\n", jstr(s).c_str());
    fprintf(ctx.out, "{\"type\":\"distinct\",\"h\":[");
    bool first = true;
    for (auto h : ctx.distinct_set) { fprintf(ctx.out, "%s%llu", first ? "" : ",", (unsigned long long)h); first = false; }
    fprintf(ctx.out, "]}\n{\"type\":\"end\",\"start\":%llu}\n", (unsigned long long)start);
    fclose(ctx.out);
    return 0;
}
