// The meters on their own, interned ids, percentile buckets, and the payload encoding.
#include "gen.h"
#include "ids.h"
#include "vclock.h"

#include "spectator/compressed_buffer.h"
#include "spectator/counter.h"
#include "spectator/dist_summary.h"
#include "spectator/gauge.h"
#include "spectator/gzip.h"
#include "spectator/max_gauge.h"
#include "spectator/monotonic_counter.h"
#include "spectator/monotonic_counter_uint.h"
#include "spectator/monotonic_sampled.h"
#include "spectator/percentile_buckets.h"
#include "smile_dec.h"

#include "spectator/smile.h"
#include "spectator/string_pool.h"
#include "spectator/timer.h"

#include <memory>
#include <zlib.h>

extern "C" size_t __sanitizer_get_current_allocated_bytes();

namespace {
using namespace vf;
using model::kSec;
using model::MId;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

MId any_id(Ctx& c) { return gen::raw_id(c, ":,\n", "=:,\n", ":,\n").id(); }

void same(Ctx& c, const model::Report& want, const spectator::Measurements& got, const char* what) {
  auto d = model::diff(want, report(got), 1e-9, 0);
  c.check_f(d.empty(), [&] { return std::string(what) + ":\n" + d; });
}

int64_t some_dt(Ctx& c) { return c.weighted({3, 2}) == 0 ? c.range(0, 10) : c.range(0, 4000 * kSec); }

// ---------------------------------------------------------------------------
struct Inst {
  char kind;
  MId id;
  Model m;
  std::unique_ptr<spectator::Counter> counter;
  std::unique_ptr<spectator::DistributionSummary> dist;
  std::unique_ptr<spectator::Timer> timer;
  std::unique_ptr<spectator::MaxGauge> max;
  int64_t exact = 0;  // timer: total in ns
  const spectator::Meter* meter() const {
    if (counter) return counter.get();
    if (dist) return dist.get();
    if (timer) return timer.get();
    return max.get();
  }
  void measure(spectator::Measurements* ms) const {
    if (counter) counter->Measure(ms);
    if (dist) dist->Measure(ms);
    if (timer) timer->Measure(ms);
    if (max) max->Measure(ms);
  }
};

Reg c06{{"C06",
         "A case is a history of updates (any amount: zero, negative, NaN, tiny, huge), reports and elapsed time over up "
         "to 6 counters, distribution summaries, timers and max gauges with arbitrary ids. After every step the accessors "
         "and, at a report, the measurements are compared with the reference model: each interval reports exactly what was "
         "recorded in it (count, total, total of squares, max), nothing twice, nothing when idle. Non-trivial: a report "
         "that is not empty after at least two updates of one meter, and a second report.",
         180000, 2000000,
         [](Ctx& c) {
           vclock_set(kStart);
           int64_t now = kStart;
           std::vector<Inst> v;
           auto n = c.range(1, 6);
           for (int64_t i = 0; i < n; ++i) {
             Ctx::Span sp(c);
             Inst x;
             x.kind = "cdtm"[c.draw(4)];
             x.id = any_id(c);
             x.m.ttl = std::numeric_limits<int64_t>::max();
             x.m.now = now;
             auto id = id_of(x.id);
             switch (x.kind) {
               case 'c':
                 x.counter = std::make_unique<spectator::Counter>(id);
                 x.m.counters[x.id].touch(now);
                 break;
               case 'd':
                 x.dist = std::make_unique<spectator::DistributionSummary>(id);
                 x.m.dists[x.id].touch(now);
                 break;
               case 't':
                 x.timer = std::make_unique<spectator::Timer>(id);
                 x.m.timers[x.id].touch(now);
                 break;
               case 'm':
                 x.max = std::make_unique<spectator::MaxGauge>(id);
                 x.m.maxes[x.id].touch(now);
                 break;
             }
             c.trace([&](auto& os) { os << "meter " << i << " = " << x.kind << " " << x.id.str(); });
             v.push_back(std::move(x));
           }
           bool reported = false, again = false;
           std::vector<int> updates(v.size());
           auto verify = [&](Inst& x) {
             c.check(x.meter()->MeterId() == id_of(x.id), "a meter changed its id");
             switch (x.kind) {
               case 'c': {
                 auto& s = x.m.counters[x.id];
                 c.check_f(model::close(s.v, x.counter->Count()),
                           [&] { return "counter: recorded " + dstr(s.v) + ", Count() " + dstr(x.counter->Count()); });
                 c.check(s.updated_at(x.meter()->Updated()), "counter: Updated() is not the time of the last update");
                 break;
               }
               case 'd': {
                 auto& s = x.m.dists[x.id];
                 c.check_f(x.dist->Count() == static_cast<int64_t>(s.n) && model::close(s.total, x.dist->TotalAmount()), [&] {
                   return "summary: recorded " + std::to_string(s.n) + " values, " + dstr(s.total) + " in total; Count() " +
                          std::to_string(x.dist->Count()) + ", TotalAmount() " + dstr(x.dist->TotalAmount());
                 });
                 c.check(s.updated_at(x.meter()->Updated()), "summary: Updated() is not the time of the last update");
                 break;
               }
               case 't': {
                 auto& s = x.m.timers[x.id];
                 c.check_f(x.timer->Count() == static_cast<int64_t>(s.n) && x.exact == x.timer->TotalTime(), [&] {
                   return "timer: recorded " + std::to_string(s.n) + " durations, " + std::to_string(x.exact) +
                          " ns in total; Count() " + std::to_string(x.timer->Count()) + ", TotalTime() " +
                          std::to_string(x.timer->TotalTime());
                 });
                 c.check(s.updated_at(x.meter()->Updated()), "timer: Updated() is not the time of the last update");
                 break;
               }
               case 'm': {
                 auto& s = x.m.maxes[x.id];
                 c.check_f(model::close(s.has ? s.v : NAN, x.max->Get(), 0), [&] {
                   return "max gauge: the largest value is " + dstr(s.has ? s.v : NAN) + ", Get() " + dstr(x.max->Get());
                 });
                 c.check(s.updated_at(x.meter()->Updated()), "max gauge: Updated() is not the time of the last update");
                 break;
               }
             }
           };
           for (auto& x : v) verify(x);
           while (c.more(30)) {
             Ctx::Span sp(c);
             auto k = c.draw(v.size());
             auto& x = v[k];
             switch (c.weighted({8, 3, 2})) {
               case 0: {
                 double d = c.number(true);
                 if (c.chance(1, 20)) d = NAN;
                 ++updates[k];
                 switch (x.kind) {
                   case 'c':
                     if (c.chance(1, 4)) {
                       x.counter->Increment();
                       d = 1;
                     } else {
                       x.counter->Add(d);
                     }
                     x.m.counter(x.id, d);
                     break;
                   case 'd':
                     x.dist->Record(d);
                     x.m.dist(x.id, d);
                     break;
                   case 't': {
                     int64_t ns = std::isnan(d) ? 0 : static_cast<int64_t>(std::fmod(d, 1e15));
                     if (c.chance(1, 4)) ns = c.range(-1, 3);  // a few ns: nothing may hide behind larger values
                     if (c.flip())
                       x.timer->Record(absl::Nanoseconds(ns));
                     else
                       x.timer->Record(std::chrono::nanoseconds(ns));
                     x.m.timer(x.id, ns);
                     if (ns > 0) x.exact += ns;
                     d = static_cast<double>(ns);
                     break;
                   }
                   case 'm':
                     if (c.flip())
                       x.max->Update(d);
                     else
                       x.max->Set(d);
                     x.m.max(x.id, d);
                     break;
                 }
                 c.trace([&](auto& os) { os << "update " << k << " with " << dstr(d); });
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report " << k; });
                 spectator::Measurements ms;
                 x.measure(&ms);
                 auto want = x.m.measure();
                 x.exact = 0;
                 again = again || (reported && !want.empty());
                 reported = reported || (!want.empty() && updates[k] >= 2);
                 updates[k] = 0;
                 same(c, want, ms, "a report differs from what was recorded in its interval");
                 break;
               }
               case 2: {
                 auto dt = some_dt(c);
                 vclock_advance(dt);
                 now += dt;
                 for (auto& y : v) y.m.now = now;
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 break;
               }
             }
             verify(x);
           }
           for (auto& x : v) {
             spectator::Measurements ms;
             x.measure(&ms);
             x.exact = 0;
             same(c, x.m.measure(), ms, "the last report differs from what was recorded in its interval");
             verify(x);
             ms.clear();
             x.measure(&ms);
             c.check(ms.empty(), "an idle interval was reported");
           }
           c.nontrivial(reported && again);
           for (auto& x : v) c.label((std::string("kind ") + x.kind).c_str());
         },
         false, true, 8, 60, 40, 700, {},
         {"virtual clock", "timer totals of one interval stay below 2^63 ns"}}};

// ---------------------------------------------------------------------------
Reg c07{{"C07",
         "A case is a history on one gauge: sets (any value, also NaN), ttl changes (also below the minimum, negative and "
         "infinite), reports at the current time, and virtual time moving around the ttl. Oracle: within the ttl of the last "
         "set every report carries exactly that value; past it nothing is reported and reads give NaN until the next set; the "
         "effective ttl is at least 5 s. Non-trivial: a report before and one past the ttl.",
         640000, 3000000,
         [](Ctx& c) {
           vclock_set(kStart);
           int64_t now = kStart, updated = kStart;
           auto id = any_id(c);
           auto any_ttl = [&]() -> absl::Duration {
             switch (c.weighted({4, 3, 1, 1})) {
               case 0:
                 return absl::Seconds(c.range(-3, 12));
               case 1:
                 return absl::Nanoseconds(c.size(0, 1LL << 60));
               case 2:
                 return absl::Seconds(5) + absl::Nanoseconds(c.range(-1, 1));
               default:
                 return absl::InfiniteDuration();
             }
           };
           auto eff = [](absl::Duration d) {
             auto lo = absl::Seconds(5);
             return absl::ToInt64Nanoseconds(d < lo ? lo : d);
           };
           auto d0 = any_ttl();
           int64_t ttl = eff(d0);
           double value = NAN;
           spectator::Gauge g{id_of(id), d0};
           c.trace([&](auto& os) { os << "gauge " << id.str() << " ttl " << ttl << " ns"; });
           bool live = false, dead = false;
           while (c.more(20)) {
             Ctx::Span sp(c);
             switch (c.weighted({5, 2, 5, 5})) {
               case 0: {
                 double d = c.chance(1, 15) ? NAN : c.number(true);
                 c.trace([&](auto& os) { os << "set " << dstr(d); });
                 g.Set(d);
                 value = d;
                 updated = now;
                 break;
               }
               case 1: {
                 auto t = any_ttl();
                 ttl = eff(t);
                 c.trace([&](auto& os) { os << "ttl " << ttl << " ns"; });
                 g.SetTtl(t);
                 break;
               }
               case 2: {
                 int64_t dt;
                 if (ttl < (1LL << 55) && c.flip()) {
                   auto left = updated + ttl - now;
                   dt = std::max<int64_t>(0, left + c.range(-1, 1));
                 } else {
                   dt = some_dt(c);
                 }
                 if (now > (1LL << 62)) dt = 0;
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 vclock_advance(dt);
                 now += dt;
                 break;
               }
               case 3: {
                 c.trace([&](auto& os) { os << "report"; });
                 spectator::Measurements ms;
                 if (c.flip())
                   g.Measure(&ms);
                 else
                   g.Measure(&ms, now);
                 model::Report want;
                 bool expired = now - updated > ttl;
                 // the report in which the gauge is found expired is its last
                 if (!std::isnan(value)) {
                   if (!expired) {
                     want.emplace_back(id.defstat("gauge").str(), value);
                     live = true;
                   } else {
                     dead = true;
                   }
                 }
                 if (expired) {
                   // whether the expired value goes out one last time is left open
                   auto got = report(ms);
                   if (got.size() == 1 && !std::isnan(value)) want.emplace_back(id.defstat("gauge").str(), value);
                   value = NAN;
                 }
                 same(c, want, ms, "the report differs from the last value set");
                 break;
               }
             }
             c.check(g.HasExpired(now) == (now - updated > ttl), "HasExpired() does not follow the last set and the ttl");
             c.check_f(model::close(value, g.Get(), 0),
                       [&] { return "the value is " + dstr(value) + ", Get() " + dstr(g.Get()); });
             c.check(absl::ToInt64Nanoseconds(g.GetTtl()) == ttl, "GetTtl() is not the effective ttl");
             c.check(g.Updated() == updated, "Updated() is not the time of the last set");
           }
           c.nontrivial(live && dead);
         },
         false, true, 8, 60, 40, 700, {}, {"virtual clock"}}};

// ---------------------------------------------------------------------------
Reg c08{{"C08",
         "A case is a history of sets and reports on one monotonic counter, of doubles or of 64 bit unsigned integers "
         "(including restarts to lower values, wrap-around, repeats, values set before the first report, reports before the "
         "first value). Oracle: the first value is only a baseline; each report carries the increase since the previous "
         "report if positive (unsigned: modulo 2^64, with 0 for jumps beyond 2^63); over a run without decreases the reports "
         "add up to the last measured minus the first measured value. Non-trivial: at least two positive deltas.",
         640000, 3000000,
         [](Ctx& c) {
           vclock_set(kStart);
           auto id = any_id(c);
           auto sid = id.defstat("count").str();
           Model m;
           m.ttl = std::numeric_limits<int64_t>::max();
           m.now = kStart;
           bool uns = c.flip();
           int positive = 0;
           int64_t now = kStart;
           auto tick = [&] {
             now += 1 + kSec;
             vclock_advance(1 + kSec);
             m.now = now;
           };
           c.trace([&](auto& os) { os << (uns ? "unsigned " : "double ") << id.str(); });
           if (uns) {
             spectator::MonotonicCounterUint mc{id_of(id)};
             uint64_t cur = 0, first = 0, last = 0;
             double sum = 0;
             bool any = false, measured = false, clean = true;
             c.check(std::isnan(mc.Delta()), "a delta without a baseline");
             while (c.more(20)) {
               Ctx::Span sp(c);
               if (c.weighted({3, 2}) == 0) {
                 switch (c.weighted({5, 2, 2, 1, 1})) {
                   case 0:
                     cur += c.draw(1000);
                     break;
                   case 1:
                     cur += c.draw(0) >> c.draw(64);
                     break;
                   case 2:
                     cur = c.draw(0) >> c.draw(64);
                     break;
                   case 3:
                     cur = ~uint64_t{0} - c.draw(10);
                     break;
                   case 4:
                     cur = c.draw(3);
                     break;
                 }
                 c.trace([&](auto& os) { os << "set " << cur; });
                 tick();
                 mc.Set(cur);
                 c.check(mc.Updated() == now, "Updated() is not the time of the last set");
                 m.monou(id, cur);
                 any = true;
                 if (measured) {
                   uint64_t d = cur - last;
                   c.check_f(model::close(mc.Delta(), static_cast<double>(d)), [&] {
                     return "the value moved by " + std::to_string(d) + " since the last report, Delta() " + dstr(mc.Delta());
                   });
                 }
               } else {
                 c.trace([&](auto& os) { os << "report"; });
                 spectator::Measurements ms;
                 mc.Measure(&ms);
                 auto want = m.measure();
                 same(c, want, ms, "the report differs from the increase since the previous one");
                 if (!any) continue;
                 if (measured && cur < last) clean = false;
                 if (!measured) first = cur;
                 measured = true;
                 last = cur;
                 for (auto& x : ms) sum += x.value, positive += x.value > 0;
                 if (clean && last - first < (uint64_t{1} << 52))
                   c.check_f(sum == static_cast<double>(last - first), [&] {
                     return "the reports add up to " + dstr(sum) + ", the value grew by " + std::to_string(last - first);
                   });
               }
             }
           } else {
             spectator::MonotonicCounter mc{id_of(id)};
             double cur = 0, last = NAN;
             bool any = false;
             c.check(std::isnan(mc.Delta()), "a delta without a baseline");
             while (c.more(20)) {
               Ctx::Span sp(c);
               if (c.weighted({3, 2}) == 0) {
                 switch (c.weighted({5, 2, 1})) {
                   case 0:
                     cur = (std::isnan(cur) ? 0 : cur) + static_cast<double>(c.draw(1000));
                     break;
                   case 1:
                     cur = c.number(true);
                     break;
                   case 2:
                     cur = NAN;
                     break;
                 }
                 c.trace([&](auto& os) { os << "set " << dstr(cur); });
                 tick();
                 mc.Set(cur);
                 c.check(mc.Updated() == now, "Updated() is not the time of the last set");
                 m.mono(id, cur);
                 any = true;
                 c.check_f(model::close(mc.Delta(), cur - last),
                           [&] { return "the value moved by " + dstr(cur - last) + ", Delta() " + dstr(mc.Delta()); });
               } else {
                 c.trace([&](auto& os) { os << "report"; });
                 spectator::Measurements ms;
                 mc.Measure(&ms);
                 same(c, m.measure(), ms, "the report differs from the increase since the previous one");
                 if (any) last = cur;
                 for (auto& x : ms) positive += x.value > 0;
               }
             }
           }
           (void)sid;
           c.nontrivial(positive >= 2);
           c.label(uns ? "unsigned" : "double");
         },
         false, true, 8, 60, 40, 700, {}, {}}};

// ---------------------------------------------------------------------------
Reg c09{{"C09",
         "A case is a history of sampled points (value, nanosecond timestamp: in order, repeated or out of order) and reports "
         "on one sampled monotonic source. Oracle: each report carries the rate per second between the last point of an earlier "
         "interval and the last point seen, if it is positive; points that do not move the time forward are ignored; no point is "
         "used twice and no rate is made up from a single point. Non-trivial: at least two positive rates.",
         640000, 3000000,
         [](Ctx& c) {
           vclock_set(kStart);
           auto id = any_id(c);
           auto sid = id.stat("count").str();
           spectator::MonotonicSampled s{id_of(id)};
           model::SampledM m;
           int64_t now = kStart;
           m.touch(now);
           int64_t ts = c.flip() ? kStart : c.range(0, 1000);
           double v = 0;
           int positive = 0;
           bool back = false;
           c.check(std::isnan(s.SampledRate()), "a rate without points");
           while (c.more(20)) {
             Ctx::Span sp(c);
             if (c.weighted({3, 2}) == 0) {
               switch (c.weighted({6, 1, 1, 1})) {
                 case 0:
                   ts += c.flip() ? c.range(1, 10) * kSec : c.size(1, 1LL << 40);
                   break;
                 case 1:
                   break;
                 case 2:
                   ts -= c.range(1, 10) * kSec;
                   ts = std::max<int64_t>(ts, -10 * kSec);
                   back = true;
                   break;
                 case 3:
                   ts += 1;
                   break;
               }
               v = c.chance(1, 5) ? c.number(true) : v + static_cast<double>(c.draw(100000)) / 8;
               c.trace([&](auto& os) { os << "point " << dstr(v) << " at " << ts; });
               now += 1 + kSec;
               vclock_advance(1 + kSec);
               s.Set(v, ts);
               m.touch(now, ts > m.ts);
               c.check(m.updated_at(s.Updated()), "Updated() is not the time of the last point");
               m.set(v, ts);
             } else {
               c.trace([&](auto& os) { os << "report"; });
               auto acc = s.SampledRate();
               spectator::Measurements ms;
               s.Measure(&ms);
               auto had = m.has_base && m.ts != m.base_ts;
               auto r = m.rate();
               model::Report want;
               if (r > 0) want.emplace_back(sid, r);
               same(c, want, ms, "the report differs from the rate between the points");
               if (had)
                 c.check_f(model::close(acc, r), [&] { return "the rate is " + dstr(r) + ", SampledRate() " + dstr(acc); });
               positive += r > 0;
             }
           }
           c.nontrivial(positive >= 2);
           c.label_if(back, "out of order points");
         },
         false, true, 8, 60, 40, 700, {}, {"values are finite"}}};

// ---------------------------------------------------------------------------
Reg c11{{"C11",
         "A case is a sequence of strings of arbitrary bytes (raw text, an earlier one again, an earlier one with characters "
         "replaced by others that are also invalid) interned through a fresh pool and through the process-wide one. Oracle: the "
         "reference reads back as the text with every character outside the Atlas set replaced by '_', two references are equal "
         "exactly when those texts are, references stay readable, the statistics count each call as a hit or a miss, each "
         "distinct text once, nothing is read behind the text, and a known text takes no memory. Non-trivial: at least 4 strings, one of them equal to an earlier one only after cleaning.",
         120000, 2000000,
         [](Ctx& c) {
           spectator::StringPool pool;
           std::vector<std::pair<std::string, spectator::StrRef>> seen;
           std::map<std::string, spectator::StrRef> by_text;
           size_t calls = 0, bytes = 0;
           bool collide = false;
           std::set<std::string> raws;
           while (c.more(25)) {
             Ctx::Span sp(c);
             std::string s;
             auto w = c.weighted({3, 1, 2, 1});
             if (w != 0 && seen.empty()) w = 0;
             if (w == 0) {
               s = gen::text(c, "", 0, 60);
             } else if (w == 1) {
               s = seen[c.draw(seen.size())].first;
             } else if (w == 2) {
               s = seen[c.draw(seen.size())].first;
               for (auto& ch : s)
                 if (model::clean(std::string(1, ch)) == "_" && c.flip()) {
                   char o = static_cast<char>(1 + c.draw(255));
                   if (model::clean(std::string(1, o)) == "_") ch = o;
                 }
             } else {
               s.assign(static_cast<size_t>(c.size(0, 5000)), 'x');
               if (!s.empty() && c.flip()) s[c.draw(s.size())] = static_cast<char>(1 + c.draw(255));
             }
             auto want = model::clean(s);
             bool with_len = c.flip();
             spectator::StrRef r;
             {
               // the caller's buffer does not outlive the call
               // not terminated when the length is given: nothing behind the text may be read
               auto tmp = std::make_unique<char[]>(s.size() + (with_len ? 0 : 1));
               memcpy(tmp.get(), s.c_str(), s.size() + (with_len ? 0 : 1));
               r = with_len ? pool.Intern(tmp.get(), s.size()) : pool.Intern(tmp.get());
               memset(tmp.get(), 'Z', s.size());
             }
             ++calls;
             c.trace([&](auto& os) { os << "intern " << quote(s); });
             c.check_f(want == r.Get(), [&] { return "interned as " + quote(r.Get()) + ", expected " + quote(want); });
             c.check(r.Length() == want.size(), "wrong length");
             auto it = by_text.find(want);
             if (it == by_text.end()) {
               bytes += want.size() + 1;
               by_text.emplace(want, r);
             } else {
               c.check(it->second == r && it->second.Get() == r.Get(), "one text, two references");
               if (raws.count(s) == 0) collide = true;
             }
             raws.insert(s);
             for (auto& p : by_text) {
               c.check((p.second == r) == (p.first == want), "reference equality does not follow the text");
               c.check((p.second != r) == (p.first != want), "reference inequality does not follow the text");
             }
             seen.emplace_back(s, r);
             auto st = pool.Stats();
             c.check_f(st.hits + st.misses == calls && st.misses == by_text.size() && st.table_size == by_text.size() &&
                           st.alloc_size == bytes,
                       [&] {
                         return "statistics: hits " + std::to_string(st.hits) + " misses " + std::to_string(st.misses) +
                                " size " + std::to_string(st.table_size) + " bytes " + std::to_string(st.alloc_size) +
                                "; calls " + std::to_string(calls) + " texts " + std::to_string(by_text.size()) + " bytes " +
                                std::to_string(bytes);
                       });
             // the process-wide pool, through all its ways in
             auto g1 = spectator::intern_str(std::string_view{s});
             auto g2 = spectator::intern_str(s);
             auto g3 = spectator::intern_str(s.c_str());
             c.check(g1 == g2 && g2 == g3 && want == g1.Get(), "the process-wide pool disagrees with itself");
           }
           for (auto& p : seen)
             c.check_f(model::clean(p.first) == p.second.Get(),
                       [&] { return "a reference changed: " + quote(p.second.Get()) + " for " + quote(p.first); });
           auto held = __sanitizer_get_current_allocated_bytes();
           for (auto& p : seen) pool.Intern(p.first.data(), p.first.size());
           c.check_f(__sanitizer_get_current_allocated_bytes() == held,
                     [&] { return "texts that are already in the pool take memory again"; });
           {
             spectator::StringPool other;
             for (auto& p : seen) other.Intern(p.first.data(), p.first.size());
           }
           c.check_f(__sanitizer_get_current_allocated_bytes() == held,
                     [&] { return "a pool leaves memory behind when it goes away"; });
           c.nontrivial(seen.size() >= 4 && collide);
         },
         false, true, 8, 60, 40, 700, {}, {"strings contain no NUL"}}};

// ---------------------------------------------------------------------------
struct TagOp {
  int op;
  int a, b;
  int k, v;
};
constexpr int kSlots = 5;

struct TagWorld {
  std::vector<std::unique_ptr<spectator::Tags>> real;
  std::vector<std::map<std::string, std::string>> ref;
  std::vector<bool> alive;
};

using Words = std::vector<std::pair<std::string, spectator::StrRef>>;

// c == nullptr: only run the operations
void run_tags(Ctx* c, const std::vector<TagOp>& ops, const Words& words) {
  using spectator::Tags;
  std::vector<std::unique_ptr<Tags>> t(kSlots);
  std::vector<std::map<int, int>> ref(kSlots);
  std::vector<char> alive(kSlots, 1);
  for (auto& x : t) x = std::make_unique<Tags>();
  for (auto& o : ops) {
    auto& ka = words[o.k];
    auto& va = words[o.v];
    switch (o.op) {
      case 0:
        if (!alive[o.a]) break;
        t[o.a]->add(ka.second, va.second);
        ref[o.a][o.k] = o.v;
        break;
      case 1:
        if (!alive[o.a]) break;
        t[o.a]->add(std::string_view{ka.first}, std::string_view{va.first});
        ref[o.a][o.k] = o.v;
        break;
      case 2:
        if (!alive[o.a]) break;
        t[o.a]->add(ka.first.c_str(), va.first.c_str());
        ref[o.a][o.k] = o.v;
        break;
      case 3: {  // a gets everything of b
        if (!alive[o.a] || !alive[o.b] || o.a == o.b) break;
        t[o.a]->add_all(*t[o.b]);
        for (auto& p : ref[o.b]) ref[o.a][p.first] = p.second;
        break;
      }
      case 4:  // copy b into a
        if (!alive[o.b] || o.a == o.b) break;
        t[o.a] = std::make_unique<Tags>(*t[o.b]);
        ref[o.a] = ref[o.b];
        alive[o.a] = 1;
        break;
      case 5:  // move construct
        if (!alive[o.b] || o.a == o.b) break;
        t[o.a] = std::make_unique<Tags>(std::move(*t[o.b]));
        ref[o.a] = ref[o.b];
        alive[o.a] = 1;
        alive[o.b] = 0;
        break;
      case 6:  // move assign
        if (!alive[o.b]) break;
        *t[o.a] = std::move(*t[o.b]);
        if (o.a != o.b) {
          ref[o.a] = ref[o.b];
          alive[o.a] = 1;
          alive[o.b] = 0;
        }
        break;
      case 7:  // start afresh
        t[o.a] = std::make_unique<Tags>();
        ref[o.a].clear();
        alive[o.a] = 1;
        break;
      case 8:  // assign a copy
        if (!alive[o.b]) break;
        *t[o.a] = Tags{*t[o.b]};
        ref[o.a] = ref[o.b];
        alive[o.a] = 1;
        break;
    }
    if (c == nullptr) continue;
    for (int i = 0; i < kSlots; ++i) {
      if (!alive[i]) continue;
      const Tags& x = *t[i];
      c->check(x.size() == ref[i].size() && x.empty() == ref[i].empty(), "wrong number of tags");
      c->check(x.capacity() >= x.size(), "capacity below the size");
      std::map<std::string, std::string> got;
      const char* prev = nullptr;
      size_t n = 0;
      for (auto& e : x) {
        got[e.key.Get()] = e.value.Get();
        c->check(prev == nullptr || strcmp(prev, e.key.Get()) < 0, "tags are not in order of their keys");
        prev = e.key.Get();
        ++n;
      }
      c->check(n == ref[i].size(), "iteration does not visit each tag once");
      for (auto& p : ref[i]) {
        auto it = got.find(words[p.first].second.Get());
        c->check_f(it != got.end() && it->second == words[p.second].second.Get(), [&] {
          return "slot " + std::to_string(i) + ": tag " + words[p.first].first + " is not " + words[p.second].first;
        });
        c->check(x.has(words[p.first].second) && x.at(words[p.first].second) == words[p.second].second,
                 "lookup does not find a tag");
      }
      for (size_t w = 0; w < words.size(); ++w)
        if (ref[i].count(static_cast<int>(w)) == 0)
          c->check(!x.has(words[w].second) && x.at(words[w].second) == spectator::StrRef{}, "lookup finds a tag that is not there");
      for (int j = 0; j < kSlots; ++j) {
        if (!alive[j]) continue;
        bool eq = ref[i] == ref[j];
        c->check((x == *t[j]) == eq, "equality does not follow the contents");
        if (eq) {
          c->check(x.hash() == t[j]->hash() && std::hash<Tags>()(x) == std::hash<Tags>()(*t[j]), "equal tags, different hashes");
        }
      }
    }
  }
  if (c == nullptr) return;
  // ids made of them
  auto stat = spectator::intern_str("statistic");
  for (int i = 0; i < kSlots; ++i) {
    if (!alive[i]) continue;
    MId m;
    m.name = "name";
    for (auto& p : ref[i]) m.tags[words[p.first].second.Get()] = words[p.second].second.Get();
    spectator::Id id{std::string_view{"name"}, *t[i]};
    auto before = id_str(id);
    c->check(before == m.str(), "an id does not carry its tags");
    auto& w = words[static_cast<size_t>(i) % words.size()];
    auto& u = words[static_cast<size_t>(i + 1) % words.size()];
    auto val = spectator::intern_str("value");
    auto val2 = spectator::intern_str("value2");
    c->check(id_str(id.WithTag(w.second, val)) == m.with(w.second.Get(), "value").str(), "WithTag");
    c->check(id_str(id.WithTags(w.second, val, u.second, val2)) ==
                 m.with(w.second.Get(), "value").with(u.second.Get(), "value2").str(),
             "WithTags of two");
    c->check(id_str(id.WithStat(val)) == m.stat("value").str(), "WithStat");
    c->check(id_str(id.WithDefaultStat(val)) == m.defstat("value").str(), "WithDefaultStat");
    for (int j = 0; j < kSlots; ++j) {
      if (!alive[j]) continue;
      MId both = m;
      for (auto& p : ref[j]) both.tags[words[p.first].second.Get()] = words[p.second].second.Get();
      c->check(id_str(id.WithTags(Tags{*t[j]})) == both.str(), "WithTags of a set");
      spectator::Id other{std::string_view{"name"}, *t[j]};
      bool eq = ref[i] == ref[j];
      c->check((id == other) == eq, "equality of ids");
      if (eq) c->check(std::hash<spectator::Id>()(id) == std::hash<spectator::Id>()(other), "equal ids, different hashes");
      // asked for its hash before being copied
      spectator::Id copy{id};
      c->check(copy == id && std::hash<spectator::Id>()(copy) == std::hash<spectator::Id>()(id), "a copied id differs");
      auto with = copy.WithTag(w.second, val);
      auto fresh = id_of(m.with(w.second.Get(), "value"));
      c->check(with == fresh && std::hash<spectator::Id>()(with) == std::hash<spectator::Id>()(fresh),
               "an id made from another one differs from the same id made afresh");
    }
    c->check(id_str(id) == before, "deriving an id changed it");
    c->check(!(spectator::Id{std::string_view{"other"}, *t[i]} == id), "ids with different names are equal");
  }
  (void)stat;
}

Reg c12{{"C12",
         "A case is a sequence of operations on 5 tag sets: add (three ways), merge, copy, move construction, move and copy "
         "assignment, self-move, over a vocabulary of up to 24 words, so that sets move between the inline and the heap "
         "representation. Oracle: after every step each live set equals the reference map (size, order, lookup, equality, hash), "
         "and ids derived from them carry what their construction says; AddressSanitizer reports nothing and no memory is left "
         "allocated. Non-trivial: a set with more than 8 tags and a move or copy of it.",
         24000, 600000,
         [](Ctx& c) {
           Words words;
           std::set<std::string> have;
           auto nw = c.range(2, 24);
           for (int64_t i = 0; i < nw; ++i) {
             auto s = c.chance(1, 16) ? std::string("statistic") : "w" + std::to_string(i);
             if (c.chance(1, 4)) s = model::clean(gen::text(c, "", 1, 12));
             if (c.chance(1, 6)) s = std::string(static_cast<size_t>(c.range(1, 300)), 'p') + s;
             if (!have.insert(s).second) continue;
             words.emplace_back(s, spectator::intern_str(s));
           }
           std::vector<TagOp> ops;
           std::vector<int> size(kSlots);
           bool large = false, moved_large = false;
           while (c.more(60)) {
             Ctx::Span sp(c);
             TagOp o;
             o.op = static_cast<int>(c.weighted({10, 6, 4, 3, 2, 2, 2, 1, 1}));
             o.a = static_cast<int>(c.draw(kSlots));
             o.b = static_cast<int>(c.draw(kSlots));
             o.k = static_cast<int>(c.draw(words.size()));
             o.v = static_cast<int>(c.draw(words.size()));
             ops.push_back(o);
             // a run of adds, so that sets get large
             if (o.op == 0 && c.chance(1, 4)) {
               auto n = c.range(1, 12);
               for (int64_t i = 0; i < n; ++i) {
                 o.k = (o.k + 1) % static_cast<int>(words.size());
                 ops.push_back(o);
               }
             }
           }
           static const char* kNames[] = {"add refs", "add views", "add c strings", "merge", "copy", "move construct", "move assign",
                                          "reset", "assign a copy"};
           std::vector<std::set<int>> sim(kSlots);
           for (auto& o : ops) {
             c.trace([&](auto& os) {
               os << kNames[o.op] << " slot " << o.a;
               if (o.op < 3)
                 os << " " << words[o.k].first << "=" << words[o.v].first;
               else if (o.op != 7)
                 os << " from " << o.b;
             });
             if (o.op < 3) sim[o.a].insert(o.k);
             if (sim[o.a].size() > 8) large = true;
             if (o.op >= 4 && o.op != 7 && sim[o.b].size() > 8) moved_large = true;
             if (o.op >= 4 && o.a != o.b) {
               auto x = o.op == 7 ? std::set<int>{} : sim[o.b];
               sim[o.a] = x;
             }
           }
           run_tags(&c, ops, words);
           auto before = __sanitizer_get_current_allocated_bytes();
           run_tags(nullptr, ops, words);
           auto after = __sanitizer_get_current_allocated_bytes();
           c.check_f(before == after,
                     [&] { return "memory was left allocated: " + std::to_string(after - before) + " bytes"; });
           c.nontrivial(large && moved_large);
         },
         false, true, 8, 60, 40, 700, {}, {"a moved-from set is only assigned to or destroyed"}}};

// ---------------------------------------------------------------------------
Reg c13{{"C13",
         "A case draws 64 bit values (uniform over magnitudes, around every bucket boundary and power of two, negative) for the "
         "bucket functions, and a histogram over the 276 buckets with a sorted list of percentiles. Oracle: bucket table built "
         "from the definition; index and value agree with it, are monotonic, and a value lies above the previous bucket and not "
         "above its own; percentiles equal the naive computation, are monotonic and lie inside the bucket that reaches them. "
         "Non-trivial: a histogram with at least two non-empty buckets.",
         720000, 2880000,
         [](Ctx& c) {
           const auto& B = model::buckets();
           static_assert(spectator::PercentileBucketsLength() == 276, "");
           c.check(B.v.size() == 276, "the reference table is wrong");
           for (int i = 0; i < 40; ++i) {
             int64_t x;
             switch (c.weighted({3, 3, 1, 1})) {
               case 0:
                 x = static_cast<int64_t>(c.draw(0) >> (1 + c.draw(63)));
                 break;
               case 1: {
                 auto b = B.v[c.draw(B.v.size())];
                 auto d = c.range(-2, 2);
                 x = d > 0 && b > std::numeric_limits<int64_t>::max() - d ? b : b + d;
                 break;
               }
               case 2:
                 x = static_cast<int64_t>(uint64_t{1} << c.draw(63)) + c.range(-2, 2);
                 break;
               default:
                 x = -static_cast<int64_t>(c.draw(0) >> 1);
                 break;
             }
             auto got = spectator::PercentileBucketIndexOf(x);
             auto want = B.index(x);
             c.check_f(got == want, [&] {
               return "bucket of " + std::to_string(x) + " is " + std::to_string(got) + ", expected " + std::to_string(want);
             });
             auto bv = spectator::PercentileBucket(x);
             c.check(bv == B.v[want], "the value of a bucket differs from the table");
             // from the definition: values up to 4 are their own bucket index
             if (x > 4) {
               // a third of a power of four is rounded down, so that the 3 values
               // below the next power already count for the bucket after it
               c.check_f((x < bv || x == std::numeric_limits<int64_t>::max()) && x >= B.v[want - 1] - 3,
                         [&] { return std::to_string(x) + " is outside its bucket, which ends at " + std::to_string(bv); });
             }
             if (x < std::numeric_limits<int64_t>::max())
               c.check(spectator::PercentileBucketIndexOf(x + 1) >= got, "bucket indexes are not monotonic");
           }
           std::array<int64_t, 276> counts{};
           int64_t total = 0;
           int used = 0;
           auto n = c.range(1, 20);
           int64_t most = c.chance(1, 6) ? int64_t{1} << 57 : int64_t{1} << 38;
           for (int64_t i = 0; i < n; ++i) {
             auto k = c.draw(276);
             auto m = most > int64_t{1} << 38 && c.flip() ? c.range(most / 2, most) : c.size(0, most);
             if (counts[k] == 0 && m > 0) ++used;
             counts[k] += m;
             total += m;
           }
           if (total == 0) {
             counts[c.draw(276)] = 1;
             total = 1;
             used = 1;
           }
           // with such totals every share of them is exact, however it is computed
           bool exact = false;
           if (c.flip() && total < int64_t{1} << 44) {
             int64_t up = 1;
             while (up < total) up *= 2;
             auto k = c.draw(276);
             used += counts[k] == 0 && up > total;
             counts[k] += up - total;
             total = up;
             exact = true;
           }
           c.label_if(total > int64_t{1} << 57, "totals above 2^57");
           std::vector<double> pcts;
           auto np = c.range(1, 12);
           for (int64_t i = 0; i < np; ++i) {
             switch (c.draw(3)) {
               case 0:
                 pcts.push_back(static_cast<double>(c.range(0, 100)));
                 break;
               case 1:
                 pcts.push_back(static_cast<double>(c.draw(1000001)) / 10000.0);
                 break;
               default: {  // exactly at the edge of a bucket
                 int64_t cum = 0;
                 auto k = c.draw(276);
                 for (size_t j = 0; j <= k; ++j) cum += counts[j];
                 pcts.push_back(std::min(100.0, 100.0 * static_cast<double>(cum) / static_cast<double>(total)));
               }
             }
           }
           std::sort(pcts.begin(), pcts.end());
           std::vector<double> got{1, 2, 3};
           spectator::Percentiles(counts, pcts, &got);
           c.check(got.size() == pcts.size(), "wrong number of results");
           // the estimate, in the bucket [*lo, *hi]; grows with pct
           auto estimate = [&](double pct, double* lo, double* hi) {
             int64_t cum = 0;
             double prev_p = 0;
             for (size_t b = 0; b < 276; ++b) {
               cum += counts[b];
               double p = cum == total ? 100.0 : 100.0 * static_cast<double>(cum) / static_cast<double>(total);
               if (p >= pct) {
                 *lo = b == 0 ? 0 : static_cast<double>(B.v[b - 1]);
                 *hi = static_cast<double>(B.v[b]);
                 return p == prev_p ? *lo : *lo + std::clamp((pct - prev_p) / (p - prev_p), 0.0, 1.0) * (*hi - *lo);
               }
               prev_p = p;
             }
             return *lo = *hi;
           };
           for (size_t i = 0; i < pcts.size(); ++i) {
             double lo = 0, hi = 0, lo2 = 0, hi2 = 0;
             auto want = estimate(pcts[i], &lo, &hi);
             // what rounding may make of it
             auto least = want, most_ = want;
             if (!exact) {
               least = estimate(std::max(0.0, pcts[i] - 1e-12), &lo, &hi2);
               most_ = estimate(std::min(100.0, pcts[i] + 1e-12), &lo2, &hi);
             }
             auto tr = [&] {
               std::string s = "percentile " + dstr(pcts[i]) + " of {";
               for (size_t b = 0; b < 276; ++b)
                 if (counts[b]) s += std::to_string(b) + ":" + std::to_string(counts[b]) + " ";
               return s + "} is " + dstr(got[i]) + ", expected " + dstr(want) + " in [" + dstr(lo) + ", " + dstr(hi) + "]";
             };
             c.check_f(got[i] >= lo * (1 - 1e-12) && got[i] <= hi * (1 + 1e-12), tr);
             c.check_f((got[i] >= least && got[i] <= most_) || model::close(got[i], least, 1e-6, 1e-6) || model::close(got[i], most_, 1e-6, 1e-6), tr);
             if (i > 0) c.check_f(got[i] >= got[i - 1] * (1 - 1e-12), tr);
             c.check_f(model::close(spectator::Percentile(counts, pcts[i]), got[i]), tr);
           }
           c.trace([&](auto& os) {
             os << "histogram:";
             for (size_t b = 0; b < 276; ++b)
               if (counts[b]) os << " " << b << ":" << counts[b];
             os << "; percentiles:";
             for (auto p : pcts) os << " " << dstr(p);
           });
           c.nontrivial(used >= 2);
         },
         false, true, 8, 60, 40, 700, {}, {"histogram totals below 2^62", "percentiles sorted and within [0, 100]"}}};

// ---------------------------------------------------------------------------
void smile_case(Ctx& c) {
  static thread_local spectator::SmilePayload* reused = nullptr;
  bool reuse = c.flip();
  if (reused == nullptr) reused = new spectator::SmilePayload();
  spectator::SmilePayload fresh;
  auto& pl = reuse ? *reused : fresh;
  auto rounds = c.range(1, 2);
  size_t total = 0;
  bool all_kinds = false;
  for (int64_t r = 0; r < rounds; ++r) {
    Ctx::Span sp(c);
    std::vector<SmileVal> vals;
    pl.Init();
    std::set<char> kinds;
    while (c.more(40)) {
      Ctx::Span sp2(c);
      SmileVal v;
      v.kind = "isd"[c.draw(3)];
      kinds.insert(v.kind);
      auto times = c.chance(1, 60) ? c.range(1, 40000) : 1;
      switch (v.kind) {
        case 'i': {
          auto n = c.weighted({2, 2}) == 0 ? c.size(0, (1LL << 31) - 1)
                                           : static_cast<int64_t>(c.draw(uint64_t{1} << 31) >> c.draw(31));
          v.i = static_cast<uint64_t>(n);
          bool as_int = c.flip();
          for (int64_t k = 0; k < times; ++k) {
            if (as_int)
              pl.Append(static_cast<int>(n));
            else
              pl.Append(static_cast<size_t>(n));
          }
          break;
        }
        case 's': {
          auto len = c.weighted({3, 2, 1}) == 0 ? c.size(0, 70) : c.size(0, 300);
          auto unit = gen::text(c, "", 1, 16);
          for (auto& ch : unit) ch = static_cast<char>(ch & 0x7F ? ch & 0x7F : 'a');
          for (int64_t k = 0; k < len; ++k) v.s += unit[static_cast<size_t>(k) % unit.size()];
          if (times > 1000) times = 1000;
          for (int64_t k = 0; k < times; ++k) pl.Append(std::string_view{v.s});
          break;
        }
        case 'd': {
          if (c.flip()) {
            v.d = c.number(true);
          } else {
            auto bits = c.draw(0);
            memcpy(&v.d, &bits, 8);
          }
          for (int64_t k = 0; k < times; ++k) pl.Append(v.d);
          break;
        }
      }
      c.trace([&](auto& os) {
        os << times << " x ";
        if (v.kind == 'i')
          os << v.i;
        else if (v.kind == 's')
          os << quote(v.s);
        else
          os << dstr(v.d);
      });
      for (int64_t k = 0; k < times; ++k) vals.push_back(v);
    }
    all_kinds = all_kinds || kinds.size() == 3;
    auto res = pl.Result();
    auto raw = inflate_all(c, res.data, res.size);
    total += raw.size();
    c.check(raw.size() >= 6 && raw.compare(0, 5, std::string(":)\n\0\xF8", 5)) == 0, "the header is not that of a SMILE array");
    SmileDec d{c, raw, 5};
    SmileVal got;
    size_t i = 0;
    while (d.next(&got)) {
      c.check(i < vals.size(), "more values than were appended");
      auto& w = vals[i];
      bool ok = w.kind == got.kind;
      if (ok && w.kind == 'i') ok = w.i == got.i;
      if (ok && w.kind == 's') ok = w.s == got.s;
      if (ok && w.kind == 'd') ok = memcmp(&w.d, &got.d, 8) == 0;
      c.check_f(ok, [&] {
        auto show = [](const SmileVal& x) {
          return x.kind == 'i' ? std::to_string(x.i) : x.kind == 's' ? quote(x.s) : dstr(x.d);
        };
        return "value " + std::to_string(i) + ": appended " + show(w) + ", decoded " + show(got);
      });
      ++i;
    }
    c.check(i == vals.size(), "values are missing");
    c.check(d.p == raw.size(), "bytes after the end of the array");
  }
  c.nontrivial(all_kinds);
  c.label_if(total > (256 << 10), "more than one chunk");
  c.label_if(reuse, "payload object used again");
}

void buffer_case(Ctx& c) {
  auto in = static_cast<size_t>(c.size(0, 5000));
  auto out = static_cast<size_t>(c.size(0, 5000));
  auto chunk = static_cast<size_t>(c.size(2, 5000));
  spectator::CompressedBuffer buf{in, out, chunk};
  auto rounds = c.range(1, 3);
  bool big = false;
  c.trace([&](auto& os) { os << "buffer of chunks " << in << " " << out << " " << chunk; });
  for (int64_t r = 0; r < rounds; ++r) {
    Ctx::Span sp(c);
    buf.Init();
    std::string want;
    Rng rng(c.draw(1u << 30));
    while (c.more(30)) {
      Ctx::Span sp2(c);
      auto b = [&] {
        auto x = static_cast<uint8_t>(rng.next());
        want += static_cast<char>(x);
        return x;
      };
      switch (c.draw(7)) {
        case 0:
          buf.Append(b());
          break;
        case 1: {
          auto x = b(), y = b();
          buf.Append(x, y);
          break;
        }
        case 2: {
          auto x = b(), y = b(), z = b();
          buf.Append(x, y, z);
          break;
        }
        case 3: {
          auto x = b(), y = b(), z = b(), u = b();
          buf.Append(x, y, z, u);
          break;
        }
        case 4: {
          auto x = b(), y = b(), z = b(), u = b(), v = b();
          buf.Append(x, y, z, u, v);
          break;
        }
        case 5: {
          auto x = b(), y = b(), z = b(), u = b(), v = b(), w = b();
          buf.Append(x, y, z, u, v, w);
          break;
        }
        default: {
          auto n = c.chance(1, 8) ? c.size(0, 200000) : c.size(0, 4000);
          std::string s;
          bool flat = c.flip();
          for (int64_t i = 0; i < n; ++i) s += flat ? 'a' : static_cast<char>(rng.next());
          buf.Append(std::string_view{s});
          want += s;
        }
      }
    }
    auto res = buf.Result();
    if (c.flip()) res = buf.Result();  // asking again changes nothing
    auto got = inflate_all(c, res.data, res.size);
    c.trace([&](auto& os) { os << "round " << r << ": " << want.size() << " bytes, compressed " << res.size; });
    c.check_f(got == want, [&] {
      return "appended " + std::to_string(want.size()) + " bytes, decompressed " + std::to_string(got.size()) +
             (got.size() == want.size() ? " different" : "");
    });
    big = big || want.size() > in;
  }
  c.nontrivial(big);
  c.label("buffer");
}

void gzip_case(Ctx& c) {
  Rng rng(c.draw(1u << 30));
  auto n = c.chance(1, 10) ? c.size(0, 100000) : c.size(0, 3000);
  bool flat = c.flip();
  std::string s;
  for (int64_t i = 0; i < n; ++i) s += flat ? 'a' : static_cast<char>(rng.next());
  auto cap = static_cast<size_t>(n) * 2 + 200;
  std::vector<char> z(cap);
  size_t len = cap;
  c.check(spectator::gzip_compress(z.data(), &len, s.data(), s.size()) == Z_OK, "gzip_compress failed with room for the result");
  c.check(len <= cap, "the result is larger than the room for it");
  auto got = inflate_all(c, reinterpret_cast<uint8_t*>(z.data()), len);
  c.check(got == s, "gzip does not give back what was compressed");
  {  // exactly as much room as it needs, or less
    auto short_by = c.flip() ? 0 : c.range(1, static_cast<int64_t>(len));
    auto room = len - static_cast<size_t>(short_by);
    std::vector<char> y(room);
    size_t l2 = room;
    auto rc = spectator::gzip_compress(y.data(), &l2, s.data(), s.size());
    c.check((rc == Z_OK) == (short_by == 0), "gzip_compress succeeds exactly when the result fits");
  }
  {
    std::vector<char> back(std::max<size_t>(1, s.size() + static_cast<size_t>(c.range(0, 3))));
    size_t l3 = back.size();
    auto rc = spectator::gzip_uncompress(back.data(), &l3, z.data(), len);
    c.check(rc == Z_OK && std::string(back.data(), l3) == s, "gzip_uncompress does not give back what was compressed");
  }
  if (!s.empty()) {  // too little room
    std::vector<char> back(static_cast<size_t>(c.range(0, n - 1)));
    back.reserve(1);
    size_t l3 = back.size();
    c.check(spectator::gzip_uncompress(back.data(), &l3, z.data(), len) != Z_OK, "gzip_uncompress without enough room");
  }
  {  // truncated input
    auto cut = static_cast<size_t>(c.range(0, static_cast<int64_t>(len) - 1));
    std::vector<char> half(z.begin(), z.begin() + static_cast<long>(cut));
    std::vector<char> back(s.size() + 64);
    size_t l3 = back.size();
    c.check_f(spectator::gzip_uncompress(back.data(), &l3, half.data(), cut) != Z_OK,
              [&] { return "gzip_uncompress accepts the first " + std::to_string(cut) + " of " + std::to_string(len) + " bytes"; });
  }
  c.trace([&](auto& os) { os << "gzip of " << n << " bytes: " << len; });
  c.nontrivial(n > 20);
  c.label("gzip");
}

Reg c15{{"C15",
         "A case is (a) values appended to a payload (integers up to 2^31-1, doubles of any bit pattern, ASCII strings up to and "
         "across the 64 byte limit, runs that fill several chunks, payload objects used again), (b) bytes appended in every way to "
         "a buffer with arbitrary chunk sizes, or (c) gzip of random data with too little, exact and ample room and truncated input. "
         "Oracle: an independent gunzip and SMILE decoder give back exactly what was appended; errors are reported exactly when the "
         "room or the input is short. Non-trivial: all three kinds of values, input larger than a chunk, or more than 20 bytes.",
         25000, 700000,
         [](Ctx& c) {
           switch (c.weighted({4, 2, 2})) {
             case 0:
               smile_case(c);
               break;
             case 1:
               buffer_case(c);
               break;
             default:
               gzip_case(c);
           }
         },
         false, true, 8, 60, 45, 700, {},
         {"integers below 2^31, output chunks of at least 2 bytes"}}};

}  // namespace
