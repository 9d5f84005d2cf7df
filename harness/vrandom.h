// Makes std::random_device (the seed of srtc's random generators) repeatable.
#pragma once
#include <cstdint>
#include <deque>
namespace vrand {
extern std::deque<uint32_t> forced; // taken first
void seed(uint64_t s);
} // namespace vrand
