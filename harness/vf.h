// Common runtime-monitoring framework: deterministic case generation, event
// counters, violation records.  Every case is a pure function of
// (mode, seed, case number), so any record can be replayed.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng
{
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); }
    uint64_t next()
    {
        uint64_t z = (s += 0x9e3779b97f4a7c15ull);
        z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
        z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
        return z ^ (z >> 31);
    }
    // Uniform in [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // Uniform in [a, b]
    int64_t range(int64_t a, int64_t b) { return a + (int64_t)below((uint64_t)(b - a) + 1); }
    // True with probability num/den
    bool chance(unsigned num, unsigned den) { return below(den) < num; }
    double real() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template<typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
};

inline uint64_t fnv(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull)
{
    const unsigned char* c = (const unsigned char*)p;
    for (size_t i = 0; i < n; ++i) { h ^= c[i]; h *= 0x100000001b3ull; }
    return h;
}
inline uint64_t fnv(const std::string& s, uint64_t h = 0xcbf29ce484222325ull) { return fnv(s.data(), s.size(), h); }

std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));
std::string hex(const std::string& s, size_t max = 4000);
std::string jstr(const std::string& s);

struct Stop {};   // thrown to end the current case after a failure

struct Ctx
{
    Rng rng{1};
    uint64_t seed = 1;
    uint64_t case_no = 0;
    bool replay = false;
    std::map<std::string, uint64_t> counters;
    std::unordered_set<uint64_t> distinct_set;
    std::vector<std::string> samples;
    std::map<std::string, unsigned> fail_count;
    FILE* out = nullptr;

    // Count one monitored event
    void count(const std::string& name, uint64_t n = 1) { counters[name] += n; }
    // Record one distinct, non-trivial case/state
    void distinct(uint64_t h) { if (distinct_set.size() < 400000) distinct_set.insert(h); }
    void sample(const std::string& s) { if (samples.size() < 3) samples.push_back(s.substr(0, 1500)); }
    // Record a violation (does not stop the case)
    void fail(const std::string& key, const std::string& detail);
    // Record a violation and abandon the case
    [[noreturn]] void failstop(const std::string& key, const std::string& detail) { fail(key, detail); throw Stop(); }
    void check(bool cond, const std::string& key, const std::string& detail) { if (!cond) failstop(key, detail); }
    // Mark the running case as having / not having a bound on its work
    void set_bounded(bool val);
    // Description of the running case, shown if the process dies
    void note(const std::string& s);
    // Shared progress sink
    void phase(unsigned p);
};

// When run under valgrind, check that memory does not derive from something
// which was never initialised
bool in_memcheck();
void defined(Ctx& ctx, const void* p, size_t size, const char* what);

typedef void (*CaseFn)(Ctx&);
struct Mode { const char* name; CaseFn fn; void (*setup)(Ctx&); };
void register_mode(const char* name, CaseFn fn, void (*setup)(Ctx&) = nullptr);
struct Reg { Reg(const char* n, CaseFn f, void (*s)(Ctx&) = nullptr) { register_mode(n, f, s); } };

// Where the repository is
std::string repo();
std::string read_file(const std::string& path);

// A FILE* which discards everything and counts bytes
FILE* devnull();

}
