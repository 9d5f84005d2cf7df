// Virtual time for single-threaded component harnesses: replaces std::chrono's clocks in the executable.
#pragma once
#include <cstdint>
namespace vclock {
extern int64_t ns;                         // nanoseconds since the start of the case
constexpr int64_t kSteadyBase = 100000ll * 1000000000ll;
constexpr int64_t kSystemBase = 1780000000ll * 1000000000ll;
inline int64_t us() { return ns / 1000; }
inline void setUs(int64_t us) { ns = us * 1000; }
} // namespace vclock
