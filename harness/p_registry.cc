// The registry: identity, reporting, expiry, deletion, limits, percentile meters, caches.
#include "gen.h"
#include "ids.h"
#include "regtools.h"
#include "vclock.h"

#include "server/expiring_cache.h"
#include "spectator/percentile_distribution_summary.h"
#include "spectator/percentile_timer.h"

namespace {
using namespace vf;
using model::kSec;
using model::MId;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

struct Pool {
  std::vector<MId> ids;
  const MId& pick(Ctx& c, size_t max = 10) {
    if (ids.empty() || (ids.size() < max && c.chance(1, 3))) {
      if (!ids.empty() && c.chance(1, 3)) {  // a neighbour of one: same name, tags changed
        auto m = ids[c.draw(ids.size())];
        auto k = std::string(c.pick({"a", "b", "statistic", "zz"}));
        if (c.flip() && m.tags.count(k))
          m.tags.erase(k);
        else
          m.tags[k] = k == "statistic" ? c.pick({"gauge", "count", "max", "totalTime", "duration"}) : c.pick({"1", "2", "count"});
        ids.push_back(m);
      } else {
        ids.push_back(gen::raw_id(c, ":,\n", "=:,\n", ":,\n").id());
      }
    }
    return ids[c.draw(ids.size())];
  }
};

// one of the nine kinds, by letter
const char kKinds[] = "cdtmgCUXA";

struct Handle {
  char kind;
  MId id;
  std::shared_ptr<void> p;
};

// spelled in one of the ways the registry offers; tags in any order
std::shared_ptr<void> get(Ctx& c, TestRegistry& r, char kind, const MId& id) {
  std::vector<std::pair<std::string, std::string>> order(id.tags.begin(), id.tags.end());
  if (c.flip()) std::reverse(order.begin(), order.end());
  spectator::Tags tags;
  for (auto& t : order) tags.add(std::string_view{t.first}, std::string_view{t.second});
  bool by_name = c.flip();
  std::string_view n{id.name};
#define VF_GET(F) by_name ? r.F(n, std::move(tags)) : r.F(spectator::Id{n, std::move(tags)})
  switch (kind) {
    case 'c':
      return VF_GET(GetCounter);
    case 'd':
      return VF_GET(GetDistributionSummary);
    case 't':
      return VF_GET(GetTimer);
    case 'm':
      return VF_GET(GetMaxGauge);
    case 'g':
      return VF_GET(GetGauge);
    case 'C':
      return VF_GET(GetMonotonicCounter);
    case 'U':
      return VF_GET(GetMonotonicCounterUint);
    case 'X':
      return VF_GET(GetMonotonicSampled);
    default:
      return VF_GET(GetAgeGauge);
  }
#undef VF_GET
}

// the model gets the meter too, as the program does
template <typename M>
void touch(std::map<MId, M>* m, const MId& id, int64_t now) {
  auto r = m->emplace(id, M{});
  if (r.second) r.first->second.touch(now);
}
bool create(Model* m, char kind, const MId& id) {
  switch (kind) {
    case 'c':
      touch(&m->counters, id, m->now);
      break;
    case 'd':
      touch(&m->dists, id, m->now);
      break;
    case 't':
      touch(&m->timers, id, m->now);
      break;
    case 'm':
      touch(&m->maxes, id, m->now);
      break;
    case 'g':
      if (m->gauges.count(id) == 0) {
        model::GaugeM g;
        g.ttl = std::max<int64_t>(m->gauge_ttl, 5 * kSec);
        g.touch(m->now);
        m->gauges.emplace(id, g);
      }
      break;
    case 'C':
      touch(&m->monos, id, m->now);
      break;
    case 'U':
      touch(&m->monous, id, m->now);
      break;
    case 'X':
      touch(&m->sampled, id, m->now);
      break;
    default:
      if (m->ages.count(id) == 0) {
        if (m->ages.size() >= m->age_limit) return false;
        m->ages.emplace(id, model::AgeM{});
      }
  }
  return true;
}
bool exists(const Model& m, char kind, const MId& id) {
  switch (kind) {
    case 'c':
      return m.counters.count(id);
    case 'd':
      return m.dists.count(id);
    case 't':
      return m.timers.count(id);
    case 'm':
      return m.maxes.count(id);
    case 'g':
      return m.gauges.count(id);
    case 'C':
      return m.monos.count(id);
    case 'U':
      return m.monous.count(id);
    case 'X':
      return m.sampled.count(id);
    default:
      return m.ages.count(id);
  }
}

double record(Model* m, char kind, const MId& id, void* p, double d, int64_t at) {
  switch (kind) {
    case 'c':
      static_cast<spectator::Counter*>(p)->Add(d);
      m->counter(id, d);
      break;
    case 'd':
      static_cast<spectator::DistributionSummary*>(p)->Record(d);
      m->dist(id, d);
      break;
    case 't': {
      auto ns = static_cast<int64_t>(std::fmod(d, 1e15));
      static_cast<spectator::Timer*>(p)->Record(absl::Nanoseconds(ns));
      m->timer(id, ns);
      d = static_cast<double>(ns);
      break;
    }
    case 'm':
      static_cast<spectator::MaxGauge*>(p)->Set(d);
      m->max(id, d);
      break;
    case 'g':
      static_cast<spectator::Gauge*>(p)->Set(d);
      m->gauge(id, d, std::nullopt);
      break;
    case 'C':
      static_cast<spectator::MonotonicCounter*>(p)->Set(d);
      m->mono(id, d);
      break;
    case 'U': {
      auto u = static_cast<uint64_t>(d);
      static_cast<spectator::MonotonicCounterUint*>(p)->Set(u);
      m->monou(id, u);
      d = static_cast<double>(u);
      break;
    }
    case 'X': {
      static_cast<spectator::MonotonicSampled*>(p)->Set(d, at);
      m->sample(id, d, at);
      break;
    }
    default: {
      static_cast<spectator::AgeGauge*>(p)->UpdateLastSuccess(at);
      m->age(id, at);
      d = static_cast<double>(at);
    }
  }
  return d;
}
std::string record(Ctx& c, Model* m, char kind, const MId& id, void* p) {
  auto d = kind == 'U' ? static_cast<double>(c.draw(100000)) : c.number(true);
  auto at = kind == 'X' ? m->now + c.range(-5, 5) * kSec : kind == 'A' ? m->now - c.range(0, 100) * kSec : 0;
  return dstr(record(m, kind, id, p, d, at));
}

struct World {
  Model m;
  std::unique_ptr<TestRegistry> reg;
  World(Ctx& c, bool status, size_t limit = 1000) {
    vclock_set(kStart);
    m.now = kStart;
    int64_t cfg_ttl = c.chance(1, 2) ? c.range(1, 100) * kSec : 0;
    auto cfg = config(status, limit);
    cfg->meter_ttl = absl::Nanoseconds(cfg_ttl);
    m.ttl = cfg_ttl == 0 ? 15 * 60 * kSec : cfg_ttl;
    m.gauge_ttl = cfg_ttl;
    m.age_limit = limit;
    reg = std::make_unique<TestRegistry>(std::move(cfg), null_logger());
    // its own statistics
    touch(&m.dists, size_id(), m.now);
    c.trace([&](auto& os) { os << "meter ttl " << m.ttl / kSec << " s"; });
  }
  static MId size_id() { return MId{"spectator.registrySize", {{"owner", "spectatord"}}}; }
  void advance(int64_t ns) {
    vclock_advance(ns);
    m.now += ns;
  }
  int64_t some_time(Ctx& c) {
    switch (c.weighted({5, 2, 3, 1})) {
      case 0:
        return c.range(0, 4 * kSec);
      case 1:
        return 5 * kSec + c.range(-1, 1);
      case 2:
        return m.ttl + c.range(-1, 1);
      default:
        return c.range(0, 2 * m.ttl);
    }
  }
  void sizes(Ctx& c) {
    c.check_f(reg->Size() == m.size() + own_, [&] {
      return "Size() is " + std::to_string(reg->Size()) + ", there are " + std::to_string(m.size()) + " meters";
    });
    c.check(reg->AgeGauges().size() == m.ages.size() && reg->Counters().size() == m.counters.size() + own_ &&
                reg->DistSummaries().size() == m.dists.size() && reg->Gauges().size() == m.gauges.size() &&
                reg->MaxGauges().size() == m.maxes.size() && reg->MonotonicCounters().size() == m.monos.size() &&
                reg->MonotonicCountersUint().size() == m.monous.size() && reg->Timers().size() == m.timers.size(),
            "the number of meters of one type is wrong");
  }
  // meters of the program's own that the model does not know
  size_t own_ = 0;
};

// ---------------------------------------------------------------------------
Reg c20{{"C20",
         "A case is a history over all nine kinds of meters and a pool of up to 10 ids (differing in a single tag, tags in any order): "
         "look up a meter, record through a fresh or a kept handle, report, let time pass around the ttl, expire, delete one or all (gauges and "
         "age gauges). Oracle: a kind and an id name one meter as long as it lives and no other; every report and every callback carries "
         "exactly what the reference model says; only meters idle for longer than their ttl go, and they do not come back; sizes agree. "
         "Non-trivial: two kinds under one id, and a meter that was expired or deleted and made again.",
         20000, 700000,
         [](Ctx& c) {
           World w(c, c.flip());
           auto& m = w.m;
           bool status = w.reg->GetConfig().status_metrics_enabled;
           Pool pool;
           std::vector<model::Report> seen1, seen2;
           auto callbacks = c.draw(3);
           if (callbacks > 0)
             w.reg->OnMeasurements([&](const std::vector<spectator::Measurement>& ms) { seen1.push_back(report(ms)); });
           if (callbacks > 1)
             w.reg->OnMeasurements([&](const std::vector<spectator::Measurement>& ms) {
               c.check(seen1.size() == seen2.size() + 1, "callbacks are not called in order");
               seen2.push_back(report(ms));
             });
           w.own_ = w.reg->Size() - 1;  // what the publisher keeps for itself
           std::map<std::pair<char, MId>, std::shared_ptr<void>> live;
           std::set<std::pair<char, MId>> gone;
           std::map<MId, std::set<char>> kinds;
           bool again = false, two = false, many = false;
           auto sweep = [&] {  // forget the handles of meters that are gone
             for (auto it = live.begin(); it != live.end();) {
               if (exists(m, it->first.first, it->first.second)) {
                 ++it;
               } else {
                 gone.insert(it->first);
                 it = live.erase(it);
               }
             }
           };
           while (c.more(30)) {
             Ctx::Span sp(c);
             switch (c.weighted({12, 4, 4, 3, 2})) {
               case 0: {
                 char kind = kKinds[c.draw(9)];
                 if (c.chance(1, 400)) {  // many meters of one kind
                   auto n = kind == 'A' ? c.range(100, 500) : c.range(100, 3000);
                   c.trace([&](auto& os) { os << "get and record " << n << " of " << kind; });
                   MId id{"bulk", {}};
                   for (int64_t i = 0; i < n; ++i) {
                     id.tags["i"] = std::to_string(i);
                     auto h = get(c, *w.reg, kind, id);
                     create(&m, kind, id);
                     record(&m, kind, id, h.get(), 1 + static_cast<double>(i), kind == 'X' || kind == 'A' ? m.now : 0);
                   }
                   many = true;
                   break;
                 }
                 auto id = pool.pick(c);
                 auto key = std::make_pair(kind, id);
                 std::shared_ptr<void> h;
                 auto it = live.find(key);
                 bool kept = it != live.end() && c.flip();
                 if (kept) {
                   h = it->second;
                 } else {
                   h = get(c, *w.reg, kind, id);
                   create(&m, kind, id);
                   if (it != live.end()) {
                     c.check(it->second == h, "one id, two meters");
                   } else {
                     for (auto& l : live) c.check(l.second != h, "two ids, one meter");
                     if (gone.count(key)) again = true;
                     live[key] = h;
                   }
                 }
                 kinds[id].insert(kind);
                 two = two || kinds[id].size() > 1;
                 c.trace([&](auto& os) { os << (kept ? "kept " : "get ") << kind << " " << id.str(); });
                 if (c.chance(4, 5)) {
                   auto s = record(c, &m, kind, id, h.get());
                   c.trace([&](auto& os) { os << "  record " << s; });
                 }
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report"; });
                 auto ms = w.reg->Measurements();
                 auto got = report(ms);
                 auto want = m.measure();
                 auto d = model::diff(want, got);
                 c.check_f(d.empty(), [&] { return "the report differs from what was recorded:\n" + d; });
                 if (status) m.dist(World::size_id(), static_cast<double>(ms.size()));
                 if (callbacks > 0) c.check(!seen1.empty() && model::diff(seen1.back(), got, 0, 0).empty(), "a callback saw another report");
                 if (callbacks > 1) c.check(!seen2.empty() && model::diff(seen2.back(), got, 0, 0).empty(), "a callback saw another report");
                 break;
               }
               case 2: {
                 auto dt = w.some_time(c);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 // the registry's own meters must not make the sizes ambiguous
                 if (status && !m.fresh(m.dists[World::size_id()])) {
                   (void)w.reg->GetDistributionSummary("spectator.registrySize", {{"owner", "spectatord"}})->Record(1);
                   m.dist(World::size_id(), 1);
                 }
                 w.reg->remove_expired_meters();
                 m.expire();
                 if (w.own_ != 0) w.own_ = w.reg->Counters().size() - m.counters.size();
                 sweep();
                 break;
               case 4: {
                 std::string type = c.pick({"A", "g", "c", "d", "t", "x", ""});
                 if (c.chance(1, 4)) {
                   c.trace([&](auto& os) { os << "delete all " << type; });
                   w.reg->DeleteAllMeters(type);
                   if (type == "A") m.ages.clear();
                   if (type == "g") m.gauges.clear();
                 } else {
                   const auto& id = pool.pick(c);
                   c.trace([&](auto& os) { os << "delete " << type << " " << id.str(); });
                   auto ok = w.reg->DeleteMeter(type, id_of(id));
                   bool want = (type == "A" && m.ages.erase(id) > 0) || (type == "g" && m.gauges.erase(id) > 0);
                   c.check(ok == want, "deletion does not tell whether there was such a meter");
                 }
                 sweep();
                 break;
               }
             }
             w.sizes(c);
           }
           auto d = model::diff(m.measure(), report(w.reg->Measurements()));
           c.check_f(d.empty(), [&] { return "the last report differs from what was recorded:\n" + d; });
           c.nontrivial(two && again);
           c.label_if(again, "a meter made again");
           c.label_if(many, "hundreds of meters");
           c.label_if(status, "status metrics");
           c.label_if(callbacks > 0, "callbacks");
         },
         false, true, 8, 60, 45, 700, [] { quiet_logs(); },
         {"virtual clock", "handles of meters that were expired or deleted are not used again"}}};

// ---------------------------------------------------------------------------
Reg c21{{"C21",
         "A case is a registry with a limit of 0 to 5 age gauges and a history of updates of up to 8 ids (last success now, in the past or "
         "in the future), time passing (far beyond every ttl), reports, expiry and deletions. Oracle: at most the limit exist; each reports, in "
         "every interval and forever, the seconds since its last success; updates beyond the limit are accepted but have no effect, until a "
         "deletion makes room. Non-trivial: an update beyond the limit and a later report of an age gauge that was not updated since an expiry.",
         40000, 1500000,
         [](Ctx& c) {
           auto limit = static_cast<size_t>(c.range(0, 5));
           World w(c, false, limit);
           auto& m = w.m;
           std::vector<MId> ids;
           auto n = c.range(1, 8);
           for (int64_t i = 0; i < n; ++i) {
             auto id = gen::raw_id(c, ":,\n", "=:,\n", ":,\n").id();
             if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id);
           }
           std::map<MId, std::shared_ptr<spectator::AgeGauge>> kept;
           c.trace([&](auto& os) { os << "limit " << limit; });
           bool beyond = false, expired = false, survived = false, both = false;
           while (c.more(25)) {
             Ctx::Span sp(c);
             switch (c.weighted({8, 5, 4, 2, 2})) {
               case 0: {
                 const auto& id = c.pick(ids);
                 bool known = m.ages.count(id) != 0;
                 auto h = c.flip() ? w.reg->GetAgeGauge(id_of(id))
                                   : w.reg->GetAgeGauge(std::string_view{id.name}, tags_of(id.tags));
                 c.check(h != nullptr && id_str(h->MeterId()) == id.str(), "no age gauge of that id");
                 bool in = create(&m, 'A', id);
                 if (known) c.check(kept[id] == h, "one id, two age gauges");
                 if (in) kept[id] = h;
                 beyond = beyond || !in;
                 int64_t at = m.now;
                 if (c.flip()) {
                   h->UpdateLastSuccess();
                 } else {
                   at = m.now - c.range(-100, 100000) * kSec - c.range(0, 1000000);
                   h->UpdateLastSuccess(at);
                 }
                 m.age(id, at);
                 if (!in) m.ages.erase(id);
                 c.trace([&](auto& os) { os << "update " << id.str() << " at " << at << (in ? "" : " (beyond the limit)"); });
                 c.check(h->GetLastSuccess() == at, "the last success is not what was set");
                 c.check(model::close(h->Value(), static_cast<double>(m.now - at) / 1e9), "Value() is not the time since the last success");
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report"; });
                 auto want = m.measure();
                 auto d = model::diff(want, report(w.reg->Measurements()));
                 c.check_f(d.empty(), [&] { return "the report differs from the ages:\n" + d; });
                 survived = survived || (expired && !want.empty());
                 both = both || (beyond && survived);
                 break;
               }
               case 2: {
                 auto dt = w.some_time(c);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 w.reg->remove_expired_meters();
                 m.expire();
                 expired = true;
                 break;
               case 4:
                 if (c.chance(1, 3)) {
                   c.trace([&](auto& os) { os << "delete all"; });
                   w.reg->DeleteAllMeters("A");
                   m.ages.clear();
                 } else {
                   const auto& id = c.pick(ids);
                   c.trace([&](auto& os) { os << "delete " << id.str(); });
                   c.check(w.reg->DeleteMeter("A", id_of(id)) == (m.ages.erase(id) > 0),
                           "deletion does not tell whether there was such an age gauge");
                 }
                 break;
             }
             c.check_f(w.reg->AgeGauges().size() == m.ages.size() && m.ages.size() <= limit, [&] {
               return "there are " + std::to_string(w.reg->AgeGauges().size()) + " age gauges, expected " +
                      std::to_string(m.ages.size()) + ", the limit is " + std::to_string(limit);
             });
           }
           c.nontrivial(both);
           c.label_if(beyond, "beyond the limit");
         },
         false, true, 8, 60, 45, 700, [] { quiet_logs(); },
         {"virtual clock"}}};

// ---------------------------------------------------------------------------
Reg c25{{"C25",
         "A case is a history over gauges, counters, timers and summaries in which reports are kept (up to 6) while their meters go on being "
         "updated, expire, are deleted one by one or all together, and the registry itself goes away. Oracle: a kept report reads the same as "
         "when it was made (names, tags, values), and AddressSanitizer reports nothing. Non-trivial: a kept report with a measurement of a meter "
         "that is gone.",
         60000, 500000,
         [](Ctx& c) {
           World w(c, false);
           auto& m = w.m;
           Pool pool;
           struct Kept {
             std::vector<spectator::Measurement> ms;
             std::vector<std::pair<std::string, double>> as;
           };
           std::vector<Kept> kept;
           bool gone = false;
           auto verify = [&](const char* when) {
             for (auto& k : kept) {
               auto now = report(k.ms);
               c.check_f(now == k.as, [&] { return std::string("a report changed ") + when; });
             }
           };
           while (c.more(25)) {
             Ctx::Span sp(c);
             switch (c.weighted({10, 4, 3, 3, 3})) {
               case 0: {
                 char kind = "ggcdtmAUC"[c.draw(9)];
                 auto id = pool.pick(c);
                 auto h = get(c, *w.reg, kind, id);
                 create(&m, kind, id);
                 auto s = record(c, &m, kind, id, h.get());
                 c.trace([&](auto& os) { os << "record " << kind << " " << id.str() << " " << s; });
                 break;
               }
               case 1: {
                 if (kept.size() >= 6) break;
                 Kept k;
                 k.ms = w.reg->Measurements();
                 m.measure();
                 k.as = report(k.ms);
                 c.trace([&](auto& os) { os << "keep a report of " << k.ms.size(); });
                 if (c.flip()) {  // as the publisher does: pieces are copied and moved
                   std::vector<spectator::Measurement> copy(k.ms.begin(), k.ms.end());
                   k.ms = std::move(copy);
                 }
                 kept.push_back(std::move(k));
                 break;
               }
               case 2: {
                 auto dt = w.some_time(c);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3: {
                 auto before = m.size();
                 w.reg->remove_expired_meters();
                 m.expire();
                 c.trace([&](auto& os) { os << "expire " << before - m.size(); });
                 gone = gone || (!kept.empty() && m.size() < before);
                 break;
               }
               case 4: {
                 auto before = m.size();
                 std::string type = c.flip() ? "A" : "g";
                 if (c.flip()) {
                   w.reg->DeleteAllMeters(type);
                   if (type == "A") m.ages.clear();
                   if (type == "g") m.gauges.clear();
                 } else {
                   const auto& id = pool.pick(c);
                   w.reg->DeleteMeter(type, id_of(id));
                   if (type == "A") m.ages.erase(id);
                   if (type == "g") m.gauges.erase(id);
                 }
                 c.trace([&](auto& os) { os << "delete " << before - m.size(); });
                 gone = gone || (!kept.empty() && m.size() < before);
                 break;
               }
             }
             verify("while its meters changed");
           }
           if (c.flip()) {
             w.reg.reset();
             verify("when the registry went away");
             gone = gone || !kept.empty();
           }
           c.nontrivial(gone);
         },
         false, true, 8, 60, 45, 700, [] { quiet_logs(); },
         {"virtual clock"}}};

// ---------------------------------------------------------------------------
Reg c14{{"C14",
         "A case is a history of values recorded through percentile timers and percentile distribution summaries (arbitrary ids, ranges that "
         "clamp nothing, one side or everything; values negative, zero, at and beyond the range, at bucket edges), with reports, time and expiry. "
         "Oracle: every report carries for each recorded value exactly one percentile bucket count, of the bucket of the clamped value, next to "
         "count, total, total of squares and max of the values themselves; also after the meters were idle and expired. Non-trivial: at least 3 "
         "values in 2 buckets, and a second report after an expiry.",
         48000, 400000,
         [](Ctx& c) {
           World w(c, false);
           auto& m = w.m;
           struct PT {
             std::unique_ptr<spectator::PercentileTimer> t;
             std::unique_ptr<spectator::PercentileDistributionSummary> d;
             MId id;
             int64_t lo, hi;
           };
           std::vector<PT> v;
           std::set<MId> used;
           auto n = c.range(1, 4);
           for (int64_t i = 0; i < n; ++i) {
             Ctx::Span sp(c);
             PT p;
             p.id = gen::raw_id(c, ":,\n", "=:,\n", ":,\n").id();
             p.id.tags.erase("statistic");
             p.id.tags.erase("percentile");
             p.id.name += std::to_string(i);
             auto bound = [&] { return c.flip() ? model::buckets().v[c.draw(276)] + c.range(-1, 1) * (c.flip() ? 1 : 0) : c.size(0, 1LL << 50); };
             p.lo = c.flip() ? 0 : bound();
             p.hi = c.flip() ? std::numeric_limits<int64_t>::max() : bound();
             if (p.lo < 0) p.lo = 0;
             if (p.hi < 0) p.hi = std::numeric_limits<int64_t>::max();
             if (p.lo > p.hi) std::swap(p.lo, p.hi);
             bool timer = c.flip();
             auto id = id_of(p.id);
             if (timer) {
               p.t = std::make_unique<spectator::PercentileTimer>(w.reg.get(), id, absl::Nanoseconds(p.lo), absl::Nanoseconds(p.hi));
               create(&m, 't', p.id);
             } else {
               p.d = std::make_unique<spectator::PercentileDistributionSummary>(w.reg.get(), id, p.lo, p.hi);
               create(&m, 'd', p.id);
             }
             c.trace([&](auto& os) {
               os << "percentile " << (timer ? "timer " : "summary ") << i << " " << p.id.str() << " in [" << p.lo << ", " << p.hi << "]";
             });
             v.push_back(std::move(p));
           }
           std::set<std::string> tags;
           int values = 0, reports_after = 0;
           bool expired = false;
           while (c.more(30)) {
             Ctx::Span sp(c);
             switch (c.weighted({10, 3, 3, 2})) {
               case 0: {
                 auto k = c.draw(v.size());
                 auto& p = v[k];
                 int64_t x;
                 switch (c.weighted({4, 2, 2, 1})) {
                   case 0:
                     x = c.size(0, 1LL << 45);
                     break;
                   case 1:
                     x = model::buckets().v[c.draw(250)] + c.range(-1, 1);
                     break;
                   case 2: {
                     auto b = c.flip() ? p.lo : p.hi;
                     x = b < (1LL << 55) ? b + c.range(-1, 1) : b >> 8;
                     break;
                   }
                   default:
                     x = -c.size(1, 1LL << 45);
                 }
                 c.trace([&](auto& os) { os << "record " << x << " in " << k; });
                 auto clamped = std::min(std::max(x, p.lo), p.hi);
                 if (p.t) {
                   if (c.flip())
                     p.t->Record(absl::Nanoseconds(x));
                   else
                     p.t->Record(std::chrono::nanoseconds(x));
                   m.timer(p.id, x);
                 } else {
                   p.d->Record(x);
                   m.dist(p.id, static_cast<double>(x));
                 }
                 if (x >= 0) {
                   auto tag = model::bucket_tag(p.t ? 'T' : 'D', clamped);
                   m.counter(p.id.stat("percentile").with("percentile", tag), 1);
                   tags.insert(tag);
                   ++values;
                 }
                 if (p.t) {
                   auto& st = m.timers[p.id];
                   c.check(p.t->Count() == static_cast<int64_t>(st.n) &&
                               model::close(static_cast<double>(p.t->TotalTime()), st.total),
                           "Count() or TotalTime() is not what was recorded");
                 } else {
                   // reading makes the summary, as recording does
                   create(&m, 'd', p.id);
                   auto& st = m.dists[p.id];
                   c.check(p.d->Count() == static_cast<int64_t>(st.n) && model::close(p.d->TotalAmount(), st.total),
                           "Count() or TotalAmount() is not what was recorded");
                 }
                 break;
               }
               case 1: {
                 c.trace([&](auto& os) { os << "report"; });
                 auto d = model::diff(m.measure(), report(w.reg->Measurements()));
                 c.check_f(d.empty(), [&] { return "the report differs from the values recorded:\n" + d; });
                 if (expired) ++reports_after;
                 break;
               }
               case 2: {
                 auto dt = w.some_time(c);
                 c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                 w.advance(dt);
                 break;
               }
               case 3:
                 c.trace([&](auto& os) { os << "expire"; });
                 w.reg->remove_expired_meters();
                 m.expire();
                 expired = true;
                 break;
             }
           }
           auto d = model::diff(m.measure(), report(w.reg->Measurements()));
           c.check_f(d.empty(), [&] { return "the last report differs from the values recorded:\n" + d; });
           c.nontrivial(values >= 3 && tags.size() >= 2 && reports_after > 0);
         },
         false, true, 8, 60, 45, 700, [] { quiet_logs(); },
         {"virtual clock"}}};

// ---------------------------------------------------------------------------
int g_live = 0;
int g_made = 0;
struct Obj {
  spectator::Id id;
  spectator::Registry* r;
  int serial;
  Obj(spectator::Registry* reg, spectator::Id i) : id{std::move(i)}, r{reg}, serial{++g_made} { ++g_live; }
  ~Obj() { --g_live; }
};
std::unique_ptr<Obj> make_obj(spectator::Registry* r, spectator::Id id) { return std::make_unique<Obj>(r, std::move(id)); }

Reg c28{{"C28",
         "A case is a history of lookups over up to 60 ids, elapsed time around the idle limit of 120 s, and expiry runs on the cache that keeps "
         "the percentile meters. Oracle: a lookup gives the one object of that id and makes it only if there is none; objects looked up within the last "
         "120 s survive an expiry run, all others are destroyed exactly once; the run reports how many there were and how many went. "
         "Non-trivial: a run in which some went and some stayed.",
         120000, 1500000,
         [](Ctx& c) {
           vclock_set(kStart);
           int64_t now = kStart;
           g_live = 0;
           g_made = 0;
           bool mixed = false;
           {
             spectatord::expiring_cache<Obj> cache{&make_obj};
             std::vector<MId> ids;
             auto n = c.range(1, 60);
             for (int64_t i = 0; i < n; ++i) {
               MId m;
               m.name = "n" + std::to_string(i % 20);
               if (i >= 20) m.tags["k"] = std::to_string(i);
               ids.push_back(m);
             }
             struct E {
               Obj* p;
               int serial;
               int64_t used;
             };
             std::map<size_t, E> ref;
             auto* reg = reinterpret_cast<spectator::Registry*>(0x1000);  // only handed through
             int made = 0;
             while (c.more(40)) {
               Ctx::Span sp(c);
               switch (c.weighted({8, 4, 3})) {
                 case 0: {
                   auto k = c.draw(ids.size());
                   auto times = c.chance(1, 5) ? c.range(1, 40) : 1;
                   for (int64_t i = 0; i < times; ++i, k = (k + 1) % ids.size()) {
                     auto* p = &*cache.get_or_create(reg, id_of(ids[k]));
                     c.check(p != nullptr && p->id == id_of(ids[k]) && p->r == reg, "the object was made for something else");
                     auto it = ref.find(k);
                     if (it == ref.end()) {
                       ++made;
                       ref[k] = {p, p->serial, now};
                     } else {
                       c.check(it->second.p == p && it->second.serial == p->serial, "a lookup gives another object");
                       it->second.used = now;
                     }
                     c.check(g_made == made, "an object was made although there was one");
                   }
                   c.trace([&](auto& os) { os << "look up " << times << " from " << k; });
                   break;
                 }
                 case 1: {
                   auto dt = c.weighted({3, 2, 2}) == 0 ? c.range(0, 100 * kSec) : 120 * kSec + c.range(-1, 1);
                   if (c.chance(1, 4)) dt = 60 * kSec;
                   now += dt;
                   vclock_advance(dt);
                   c.trace([&](auto& os) { os << "time +" << dt << " ns"; });
                   break;
                 }
                 case 2: {
                   auto r = cache.expire();
                   size_t had = ref.size(), went = 0;
                   for (auto it = ref.begin(); it != ref.end();) {
                     if (now - it->second.used > 120 * kSec) {
                       it = ref.erase(it);
                       ++went;
                     } else {
                       ++it;
                     }
                   }
                   c.trace([&](auto& os) { os << "expire: " << went << " of " << had; });
                   c.check_f(r.first == had && r.second == went, [&] {
                     return "expiry tells " + std::to_string(r.second) + " of " + std::to_string(r.first) + ", expected " +
                            std::to_string(went) + " of " + std::to_string(had);
                   });
                   mixed = mixed || (went > 0 && went < had);
                   break;
                 }
               }
               c.check_f(g_live == static_cast<int>(ref.size()), [&] {
                 return std::to_string(g_live) + " objects live, expected " + std::to_string(ref.size());
               });
             }
           }
           c.check(g_live == 0, "objects outlive the cache");
           c.nontrivial(mixed);
         },
         false, true, 8, 60, 45, 700, {},
         {"virtual clock"}}};

}  // namespace
