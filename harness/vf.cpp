#include "vf.h"
#include <algorithm>
#include <chrono>
#include <csignal>
#include <fcntl.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

extern "C" void __sanitizer_print_stack_trace(void) __attribute__((weak));

namespace vf {
Options opt;

static std::map<std::string, uint64_t> gCounters;
static std::unordered_set<uint64_t> gSigs;
static std::vector<std::string> gSamples;
static std::string gNote;
static int64_t gCase = -1;
static std::string gSuite;
static std::map<std::string, int> gKeyCount;
static uint64_t gEvals = 0;
static uint64_t gViolations = 0;
static FILE* gOut = nullptr;
static int gCurFd = -1;
static unsigned gCpuLimit = 60;

uint64_t hash64(const void* p, size_t n, uint64_t h) {
    auto b = static_cast<const uint8_t*>(p);
    for (size_t i = 0; i < n; i++) { h ^= b[i]; h *= 0x100000001b3ull; }
    return h;
}
std::string hex(const uint8_t* p, size_t n, size_t maxBytes) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (size_t i = 0; i < n && i < maxBytes; i++) { r += d[p[i] >> 4]; r += d[p[i] & 15]; }
    if (n > maxBytes) r += "...(" + std::to_string(n) + " bytes)";
    return r;
}
static std::string js(const std::string& s) {
    std::string r = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += c; }
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c >= 127) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b; }
        else r += c;
    }
    return r + "\"";
}
void report(const std::string& key, const std::string& what) {
    gViolations++;
    if (++gKeyCount[key] > 3) return;
    if (opt.verbose) fprintf(stderr, "VIOLATION key=%s case=%lld %s | %s\n", key.c_str(), (long long)gCase, what.c_str(), gNote.c_str());
    if (gOut) {
        fprintf(gOut, "{\"type\":\"violation\",\"key\":%s,\"what\":%s,\"note\":%s,\"suite\":%s,\"case\":%lld}\n", js(key).c_str(),
                js(what).c_str(), js(gNote).c_str(), js(gSuite).c_str(), (long long)gCase);
        fflush(gOut);
    }
}
void fail(const std::string& key, const std::string& what) { report(key, what); throw CaseFailed(); }
void harnessError(const std::string& what) {
    fprintf(stderr, "HARNESS-ERROR: %s (case %lld %s)\n", what.c_str(), (long long)gCase, gNote.c_str());
    fflush(stderr);
    _exit(3);
}
void sig(uint64_t h) { if (gSigs.size() < 2000000) gSigs.insert(h); }
void count(const std::string& name, uint64_t n) { gCounters[name] += n; }
uint64_t counter(const std::string& name) { return gCounters[name]; }
void sample(const std::string& t) { if (gSamples.size() < 4) gSamples.push_back(t.substr(0, 600)); }
void note(const std::string& t) {
    gNote = t.substr(0, 1500);
    if (opt.verbose) fprintf(stderr, "note: %s\n", t.c_str());
}
static void onCpu(int) {
    static const char m[] = "\nVF-HANG: case used up its CPU limit\n";
    (void)!write(2, m, sizeof m - 1);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    _exit(77);
}
static void arm(unsigned s) {
    itimerval it = {};
    it.it_value.tv_sec = s;
    setitimer(ITIMER_PROF, &it, nullptr);
}
void cpuLimit(unsigned s) { gCpuLimit = s; arm(s); }
static void onWall(int) {
    static const char m[] = "\nVF-HANG: case is stuck\n";
    (void)!write(2, m, sizeof m - 1);
    if (__sanitizer_print_stack_trace) __sanitizer_print_stack_trace();
    _exit(77);
}
void wallLimit(unsigned s) { signal(SIGALRM, onWall); alarm(s); }

static void setCurrent(int64_t i, const std::string& suite) {
    if (gCurFd < 0) return;
    char b[160];
    int n = snprintf(b, sizeof b, "%lld %s\n", (long long)i, suite.c_str());
    (void)!pwrite(gCurFd, b, n, 0);
    (void)!ftruncate(gCurFd, n);
}

static int failedCases = 0;
int runMain(int argc, char** argv, const char* rule, std::vector<Suite> suites) {
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
        if (a == "--seed") opt.seed = strtoull(val().c_str(), nullptr, 10);
        else if (a == "--tier") opt.thorough = val() == "thorough";
        else if (a == "--cases") opt.cases = atoll(val().c_str());
        else if (a == "--shard") opt.shard = atoll(val().c_str());
        else if (a == "--shards") opt.shards = atoll(val().c_str());
        else if (a == "--start") opt.start = atoll(val().c_str());
        else if (a == "--only") opt.only = atoll(val().c_str());
        else if (a == "--suite") opt.suite = val();
        else if (a == "--out") opt.out = val();
        else if (a == "--scratch") opt.scratch = val();
        else if (a == "-v") opt.verbose = true;
        else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 3; }
    }
    if (!opt.out.empty()) {
        gOut = fopen(opt.out.c_str(), "a");
        if (!gOut) { perror("out"); return 3; }
        gCurFd = open((opt.out + ".cur").c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
    }
    signal(SIGPROF, onCpu);
    signal(SIGPIPE, SIG_IGN);
    unsigned total = 0;
    for (auto& s : suites) total += s.weight;
    uint64_t ran = 0;
    for (int64_t i = 0; i < opt.cases || opt.only >= 0; i++) {
        if (opt.only >= 0) i = opt.only;
        else if (i % opt.shards != opt.shard || i < opt.start) continue;
        // suite of case i
        uint64_t h = 0x5851F42D4C957F2Dull * (static_cast<uint64_t>(i) + 1);
        h ^= h >> 29;
        unsigned w = static_cast<unsigned>((static_cast<uint64_t>(i) / opt.shards * 7919 + (h % 3)) % total);
        const Suite* su = &suites[0];
        for (auto& s : suites) { if (w < s.weight) { su = &s; break; } w -= s.weight; }
        if (!opt.suite.empty() && opt.suite != su->name) { if (opt.only >= 0) break; continue; }
        gCase = i; gSuite = su->name; gNote.clear();
        setCurrent(i, su->name);
        uint64_t cs = hash64(&opt.seed, sizeof opt.seed);
        cs = hash64(&i, sizeof i, cs);
        cs = hash64(su->name.data(), su->name.size(), cs);
        Rng rng(cs);
        alarm(0);
        gCpuLimit = 60;
        arm(gCpuLimit);
        try { su->fn(rng, i); } catch (const CaseFailed&) {
            if (++failedCases >= 25 && opt.only < 0) break; // enough to judge, the verdict will not change
        }
        arm(0);
        gEvals++; ran++;
        gCounters["cases:" + su->name]++;
        if (opt.only >= 0) break;
    }
    setCurrent(-1, "done");
    if (gOut) {
        fprintf(gOut, "{\"type\":\"summary\",\"evaluations\":%llu,\"violations\":%llu,\"rule\":%s,\"counters\":{", (unsigned long long)gEvals,
                (unsigned long long)gViolations, js(rule).c_str());
        bool first = true;
        for (auto& c : gCounters) { fprintf(gOut, "%s%s:%llu", first ? "" : ",", js(c.first).c_str(), (unsigned long long)c.second); first = false; }
        fprintf(gOut, "},\"samples\":[");
        for (size_t i = 0; i < gSamples.size(); i++) fprintf(gOut, "%s%s", i ? "," : "", js(gSamples[i]).c_str());
        fprintf(gOut, "]}\n");
        fclose(gOut);
        FILE* f = fopen((opt.out + ".sigs").c_str(), "ab");
        if (f) { for (auto s : gSigs) fwrite(&s, 8, 1, f); fclose(f); }
    } else {
        for (auto& c : gCounters) printf("%s = %llu\n", c.first.c_str(), (unsigned long long)c.second);
        printf("evaluations=%llu sigs=%zu violations=%llu\n", (unsigned long long)gEvals, gSigs.size(), (unsigned long long)gViolations);
        for (auto& k : gKeyCount) printf("KEY %s x%d\n", k.first.c_str(), k.second);
    }
    fflush(nullptr);
    _exit(gViolations ? 1 : 0);
}
} // namespace vf
