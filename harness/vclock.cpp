#include "vclock.h"
#include <chrono>
#include <ctime>
#include <sys/time.h>
namespace vclock { int64_t ns = 0; }
namespace std { namespace chrono { inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept { return time_point(duration(vclock::kSteadyBase + vclock::ns)); }
system_clock::time_point system_clock::now() noexcept { return time_point(duration(vclock::kSystemBase + vclock::ns)); }
}}}
