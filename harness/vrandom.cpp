#include "vrandom.h"
#include <mutex>
#include <random>
namespace vrand {
std::deque<uint32_t> forced;
static uint64_t state = 1;
static std::mutex mu;
void seed(uint64_t s) { std::lock_guard l(mu); state = s; forced.clear(); }
static uint32_t next() {
    std::lock_guard l(mu);
    if (!forced.empty()) { auto v = forced.front(); forced.pop_front(); return v; }
    uint64_t z = (state += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return static_cast<uint32_t>(z ^ (z >> 31));
}
} // namespace vrand
std::random_device::result_type std::random_device::_M_getval() { return vrand::next(); }
