// Replaces the time sources of the program under test with a clock that the
// harness owns: time only moves when a case says so.
#include "vclock.h"

#include "absl/time/clock.h"

#include <atomic>
#include <chrono>
#include <thread>

namespace {
std::atomic<int64_t> g_now{1700000000LL * 1000000000LL};
}

namespace vf {
int64_t vnow() { return g_now.load(); }
void vclock_set(int64_t ns) { g_now.store(ns); }
void vclock_advance(int64_t ns) { g_now.fetch_add(ns); }
}  // namespace vf

namespace absl {
ABSL_NAMESPACE_BEGIN
int64_t GetCurrentTimeNanos() { return g_now.load(); }
Time Now() { return FromUnixNanos(g_now.load()); }
ABSL_NAMESPACE_END
}  // namespace absl

namespace std {
namespace chrono {
inline namespace _V2 {
steady_clock::time_point steady_clock::now() noexcept {
  return time_point(nanoseconds(g_now.load() - 1600000000LL * 1000000000LL));
}
system_clock::time_point system_clock::now() noexcept {
  return time_point(nanoseconds(g_now.load()));
}
}  // namespace _V2
}  // namespace chrono
}  // namespace std

// one publisher thread per Registry is plenty when nothing is published
namespace vf {
unsigned g_hw_threads = 1;
}
namespace std {
unsigned int thread::hardware_concurrency() noexcept { return vf::g_hw_threads; }
}  // namespace std
