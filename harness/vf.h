// Small framework shared by all harnesses: seeded case loop, violation records, coverage accounting.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <unordered_set>
#include <vector>

namespace vf {

struct Rng {
    uint64_t s;
    explicit Rng(uint64_t seed = 1) : s(seed) { next(); next(); }
    uint64_t next() {
        uint64_t z = (s += 0x9E3779B97F4A7C15ull);
        z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
        z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
        return z ^ (z >> 31);
    }
    // [0, n)
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    // [a, b]
    int64_t range(int64_t a, int64_t b) { return a + static_cast<int64_t>(below(static_cast<uint64_t>(b - a) + 1)); }
    bool chance(double p) { return (next() >> 11) * (1.0 / 9007199254740992.0) < p; }
    double unit() { return (next() >> 11) * (1.0 / 9007199254740992.0); }
    template <class T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
    template <class T> T pickOf(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }
    std::vector<uint8_t> bytes(size_t n) {
        std::vector<uint8_t> r(n);
        for (size_t i = 0; i < n; i += 8) {
            uint64_t x = next();
            for (size_t j = i; j < n && j < i + 8; j++, x >>= 8) r[j] = static_cast<uint8_t>(x);
        }
        return r;
    }
    Rng fork() { return Rng(next()); }
};

uint64_t hash64(const void* p, size_t n, uint64_t h = 0xcbf29ce484222325ull);
inline uint64_t hash64(const std::string& s) { return hash64(s.data(), s.size()); }
std::string hex(const uint8_t* p, size_t n, size_t maxBytes = 64);
inline std::string hex(const std::vector<uint8_t>& v, size_t maxBytes = 64) { return hex(v.data(), v.size(), maxBytes); }

// Thrown by fail(): ends the current case, the loop goes on with the next one.
struct CaseFailed : std::exception { const char* what() const noexcept override { return "case failed"; } };

struct Options {
    uint64_t seed = 1;
    bool thorough = false;
    int64_t cases = 0;      // total over all shards
    int64_t shard = 0, shards = 1;
    int64_t start = 0;      // first case index this process runs (resume after a crash)
    int64_t only = -1;
    bool verbose = false;
    std::string suite;
    std::string out;        // result file
    std::string scratch;    // scratch directory (exists)
};
extern Options opt;

// Records a violation of the property. `key` identifies the kind of failure (stable), `what` describes it.
[[noreturn]] void fail(const std::string& key, const std::string& what);
void report(const std::string& key, const std::string& what); // records and goes on
// Harness trouble, not a verdict.
[[noreturn]] void harnessError(const std::string& what);

#define VF_CHECK(cond, key, msg)                                                                                       \
    do {                                                                                                               \
        if (!(cond)) {                                                                                                 \
            std::ostringstream vf_os;                                                                                  \
            vf_os << msg;                                                                                              \
            ::vf::fail(key, vf_os.str());                                                                              \
        }                                                                                                              \
    } while (0)

// Coverage accounting
void sig(uint64_t h);                       // one distinct non-trivial situation
inline void sig(const std::string& s) { sig(hash64(s)); }
void count(const std::string& name, uint64_t n = 1);
uint64_t counter(const std::string& name);
void sample(const std::string& text);       // keeps the first few
void note(const std::string& text);         // describes the current case (goes into the violation record)

// Watchdog for the current case (CPU seconds)
void cpuLimit(unsigned seconds);
// Same in real time, for code that can deadlock; ends with the case
void wallLimit(unsigned seconds);

struct Suite {
    std::string name;
    unsigned weight;
    std::function<void(Rng& rng, int64_t index)> fn;
};

// Runs the case loop: case i belongs to the suite selected by i and the weights.
int runMain(int argc, char** argv, const char* rule, std::vector<Suite> suites);

} // namespace vf
