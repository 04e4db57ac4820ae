#pragma once
#include <cstdint>
namespace vf {
// the clock that the program under test sees (absl and steady_clock)
int64_t vnow();
void vclock_set(int64_t ns);
extern unsigned g_hw_threads;  // what the machine claims to have
void vclock_advance(int64_t ns);
}  // namespace vf
