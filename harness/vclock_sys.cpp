// Virtual clock_gettime for code that asks the system directly (CPU clocks pass through).
#include "vclock.h"
#include <ctime>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" int clock_gettime(clockid_t id, struct timespec* ts) {
    int64_t v;
    switch (id) {
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW: case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: v = vclock::kSteadyBase + vclock::ns; break;
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: v = vclock::kSystemBase + vclock::ns; break;
        default: return static_cast<int>(syscall(SYS_clock_gettime, id, ts));
    }
    ts->tv_sec = v / 1000000000ll;
    ts->tv_nsec = v % 1000000000ll;
    return 0;
}
