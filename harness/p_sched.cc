// Concurrent use of meters, registry, string pool, caches and publisher under
// generated thread schedules.
#include "schedrun.h"

#include "gen.h"
#include "httpd.h"
#include "ids.h"
#include "regtools.h"
#include "smile_dec.h"
#include "vclock.h"

#include "server/expiring_cache.h"
#include "spectator/percentile_distribution_summary.h"
#include "spectator/percentile_timer.h"
#include "spectator/string_pool.h"

#include <deque>

namespace {
using namespace vf;
using model::kSec;

constexpr int64_t kStart = 1700000000LL * kSec;

HttpServer* http = nullptr;

std::string plan_text(const sched::Plan& p) { return sched::text(p); }

void finish(Ctx& c, const sched::Result& r) {
  c.trace([&](auto& os) { os << r.points << " points, " << r.switches << " switches, " << r.preemptions << " preemptions"; });
  c.check_f(r.failure.empty(), [&] { return r.failure; });
  c.nontrivial(r.preemptions > 0);
  c.label_if(r.preemptions > 0, "preempted");
  c.label_if(r.preemptions > 1, "preempted more than once");
}

// ---- meters -----------------------------------------------------------------
// c counter, d distribution summary, t timer, m max gauge, g gauge, A age gauge, C and U monotonic, X sampled
struct Op {
  char kind;
  int meter;
  int64_t v;
};

struct Totals {
  double sum = 0, count = 0, sq = 0, max = -1;
};

spectator::Id mid(char kind, int i) { return spectator::Id::Of(std::string("m") + kind + std::to_string(i)); }

struct Handles {
  std::map<std::pair<char, int>, std::shared_ptr<void>> h;
};

template <typename T>
std::shared_ptr<T> get(spectator::Registry& r, const spectator::Id& id);
#define GET(T, F)                                                                             \
  template <>                                                                                 \
  std::shared_ptr<spectator::T> get<spectator::T>(spectator::Registry& r, const spectator::Id& id) { \
    return r.F(id);                                                                           \
  }
GET(Counter, GetCounter)
GET(DistributionSummary, GetDistributionSummary)
GET(Timer, GetTimer)
GET(MaxGauge, GetMaxGauge)
GET(Gauge, GetGauge)
GET(AgeGauge, GetAgeGauge)
GET(MonotonicCounter, GetMonotonicCounter)
GET(MonotonicCounterUint, GetMonotonicCounterUint)
GET(MonotonicSampled, GetMonotonicSampled)

struct MeterWorld {
  TestRegistry& r;
  bool keep;  // use one handle for all records
  std::map<std::pair<char, int>, std::shared_ptr<void>> handles;

  template <typename T>
  std::shared_ptr<T> m(char k, int i) {
    if (keep) {
      auto it = handles.find({k, i});
      if (it != handles.end()) return std::static_pointer_cast<T>(it->second);
    }
    return get<T>(r, mid(k, i));
  }
  void open(char k, int i) {
    auto put = [&](auto p) { handles[{k, i}] = p; };
    switch (k) {
      case 'c': put(get<spectator::Counter>(r, mid(k, i))); break;
      case 'd': put(get<spectator::DistributionSummary>(r, mid(k, i))); break;
      case 't': put(get<spectator::Timer>(r, mid(k, i))); break;
      case 'm': put(get<spectator::MaxGauge>(r, mid(k, i))); break;
      case 'g': put(get<spectator::Gauge>(r, mid(k, i))); break;
      case 'A': put(get<spectator::AgeGauge>(r, mid(k, i))); break;
      case 'C': put(get<spectator::MonotonicCounter>(r, mid(k, i))); break;
      case 'U': put(get<spectator::MonotonicCounterUint>(r, mid(k, i))); break;
      case 'X': put(get<spectator::MonotonicSampled>(r, mid(k, i))); break;
      case 'T': put(std::make_shared<spectator::PercentileTimer>(&r, mid(k, i), absl::ZeroDuration(), absl::Seconds(100))); break;
      case 'D': put(std::make_shared<spectator::PercentileDistributionSummary>(&r, mid(k, i), 0, 1000000)); break;
    }
  }
  void apply(const Op& o, uint64_t ubase) {
    switch (o.kind) {
      case 'c': m<spectator::Counter>('c', o.meter)->Add(static_cast<double>(o.v)); break;
      case 'd': m<spectator::DistributionSummary>('d', o.meter)->Record(static_cast<double>(o.v)); break;
      case 't': m<spectator::Timer>('t', o.meter)->Record(absl::Nanoseconds(o.v)); break;
      case 'm': m<spectator::MaxGauge>('m', o.meter)->Set(static_cast<double>(o.v)); break;
      case 'g': m<spectator::Gauge>('g', o.meter)->Set(static_cast<double>(o.v)); break;
      case 'A': m<spectator::AgeGauge>('A', o.meter)->UpdateLastSuccess(kStart - o.v * kSec); break;
      case 'C': m<spectator::MonotonicCounter>('C', o.meter)->Set(static_cast<double>(o.v)); break;
      case 'U': m<spectator::MonotonicCounterUint>('U', o.meter)->Set(ubase + static_cast<uint64_t>(o.v)); break;
      case 'T': std::static_pointer_cast<spectator::PercentileTimer>(handles[{'T', o.meter}])->Record(absl::Nanoseconds(o.v)); break;
      case 'D': std::static_pointer_cast<spectator::PercentileDistributionSummary>(handles[{'D', o.meter}])->Record(o.v); break;
      case 'X': m<spectator::MonotonicSampled>('X', o.meter)->Set(static_cast<double>(o.v) * 3, kStart + o.v * kSec); break;
    }
  }
};

std::string op_text(const Op& o) { return std::string(1, o.kind) + std::to_string(o.meter) + "=" + std::to_string(o.v); }

void meters(Ctx& c, const std::string& kinds = "cdtmgCUXATD") {
  vclock_set(kStart);
  std::vector<std::pair<char, int>> ms;
  auto nm = c.weighted({4, 3, 2}) + 1;
  for (size_t i = 0; i < nm; ++i) {
    char k = kinds[c.draw(kinds.size())];
    ms.emplace_back(k, static_cast<int>(i));
  }
  bool keep = c.flip();
  bool status = c.chance(1, 8);
  uint64_t ubase = c.chance(1, 3) ? ~uint64_t{0} - c.draw(8) : c.draw(4);
  auto nrec = c.weighted({2, 5, 2}) + 1;
  auto reports = c.weighted({2, 4, 3, 1});
  bool others = c.chance(1, 3);
  std::vector<std::vector<Op>> ops(nrec);
  std::map<std::pair<char, int>, int64_t> mono;  // values only grow, and only thread 0 sets them
  for (size_t t = 0; t < nrec; ++t) {
    auto n = c.range(1, 3);
    for (int64_t i = 0; i < n; ++i) {
      auto k = c.pick(ms);
      if (k.first == 'C' || k.first == 'U' || k.first == 'X') {
        auto& v = mono[k];
        v += c.range(k.first == 'X' ? 1 : 0, 5);
        ops[0].push_back({k.first, k.second, v});
      } else {
        ops[t].push_back({k.first, k.second, c.range(0, 9)});
      }
    }
  }
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) {
    os << "meters" << (keep ? ", one handle each" : ", looked up for each record") << (others ? ", with expiry, deletion of others and listings" : "") << ", "
       << reports << " reports, ubase " << ubase << "\n";
    for (size_t t = 0; t < nrec; ++t) {
      os << "thread " << t << ":";
      for (auto& o : ops[t]) os << " " << op_text(o);
      os << "\n";
    }
    os << plan_text(plan);
  });

  std::vector<std::vector<std::pair<std::string, double>>> got;
  auto res = sched::run(plan, [&] {
    TestRegistry r(config(status), null_logger());
    MeterWorld w{r, keep, {}};
    for (auto& k : ms) {
      if (keep || std::strchr("CUXTD", k.first)) w.open(k.first, k.second);
      if (k.first == 'C' || k.first == 'U') {
        w.apply({k.first, k.second, 0}, ubase);  // the baseline
      } else if (k.first == 'X') {
        w.apply({k.first, k.second, 0}, ubase);
      }
    }
    r.GetCounter("other")->Increment();
    auto take = [&] {
      auto m = r.Measurements();
      std::vector<std::pair<std::string, double>> g;
      for (auto& x : m) g.emplace_back(id_str(x.id), x.value);
      got.push_back(std::move(g));
    };
    take();
    got.clear();
    std::vector<std::function<void()>> bodies;
    for (size_t t = 0; t < nrec; ++t)
      bodies.emplace_back([&w, &ops, t, ubase] {
        for (auto& o : ops[t]) w.apply(o, ubase);
      });
    if (reports > 0)
      bodies.emplace_back([&] {
        for (size_t i = 0; i < reports; ++i) take();
      });
    if (others)
      bodies.emplace_back([&] {
        r.remove_expired_meters();
        r.GetGauge("gone")->Set(1);
        r.DeleteMeter("g", spectator::Id::Of("gone"));
        r.DeleteMeter("A", spectator::Id::Of("gone"));
        auto n = r.Counters().size() + r.Gauges().size() + r.Timers().size();
        if (n > 100) sched::fail("the lists of meters are wrong");
      });
    sched::go(bodies);
    // what a record had in hand while a report took the rest comes with the next record
    for (auto& k : ms)
      if (std::strchr("tdTD", k.first)) w.apply({k.first, k.second, 0}, ubase);
    take();
    take();
  });

  // everything recorded is reported once
  std::map<std::string, double> sum;
  std::map<std::string, std::vector<double>> seen;
  for (size_t i = 0; i < got.size(); ++i)
    for (auto& e : got[i]) {
      sum[e.first] += e.second;
      seen[e.first].push_back(e.second);
    }
  std::map<std::string, double> max_seen;
  for (auto& s : seen) max_seen[s.first] = *std::max_element(s.second.begin(), s.second.end());
  std::set<std::string> used;
  auto want = [&](const std::string& id, double v, const std::map<std::string, double>& in, const char* what) {
    used.insert(id);
    auto it = in.find(id);
    double g = it == in.end() ? 0 : it->second;
    c.check_f(std::fabs(g - v) < 1e-6 * std::max(1.0, std::fabs(v)) * 1e-3 || g == v,
              [&] { return id + ": " + what + " of all reports is " + dstr(g) + ", recorded was " + dstr(v); });
  };
  bool contended = false;
  for (auto& k : ms) {
    auto name = std::string("m") + k.first + std::to_string(k.second);
    Totals t;
    std::vector<double> all, last;
    size_t writers = 0;
    for (auto& th : ops) {
      bool any = false;
      double l = 0;
      for (auto& o : th)
        if (o.kind == k.first && o.meter == k.second) {
          auto v = static_cast<double>(o.v);
          t.sum += v;
          ++t.count;
          t.sq += v * v;
          t.max = std::max(t.max, v);
          all.push_back(v);
          l = v;
          any = true;
        }
      if (any) {
        last.push_back(l);
        ++writers;
      }
    }
    contended = contended || writers > 1 || (writers == 1 && reports > 0);
    auto one_of = [&](const std::string& id, const std::vector<double>& vs, const std::vector<double>& allowed, const char* what) {
      for (auto v : vs)
        c.check_f(std::find(allowed.begin(), allowed.end(), v) != allowed.end(), [&] { return id + ": " + what + " " + dstr(v) + " was never set"; });
    };
    switch (k.first) {
      case 'c':
        want(name + "|statistic=count", t.sum, sum, "the sum");
        break;
      case 'D':
      case 'T': {
        std::map<std::string, double> per;
        per[model::bucket_tag(k.first, 0)] = 1;
        for (auto v : all) ++per[model::bucket_tag(k.first, static_cast<int64_t>(v))];
        for (auto& p : per) want(name + "|percentile=" + p.first + "|statistic=percentile", p.second, sum, "the count of the bucket");
      }
        if (k.first == 'T') goto timer;
        [[fallthrough]];
      case 'd':
        want(name + "|statistic=count", t.count + 1, sum, "the count");
        want(name + "|statistic=totalAmount", t.sum, sum, "the total");
        want(name + "|statistic=totalOfSquares", t.sq, sum, "the total of squares");
        want(name + "|statistic=max", std::max(0.0, t.max), max_seen, "the maximum");
        break;
      case 't':
      timer:
        want(name + "|statistic=count", t.count + 1, sum, "the count");
        want(name + "|statistic=totalTime", t.sum / 1e9, sum, "the total");
        want(name + "|statistic=totalOfSquares", t.sq / 1e18, sum, "the total of squares");
        want(name + "|statistic=max", std::max(0.0, t.max) / 1e9, max_seen, "the maximum");
        break;
      case 'm': {
        auto id = name + "|statistic=max";
        used.insert(id);
        if (t.count > 0) {
          want(id, t.max, max_seen, "the maximum");
          one_of(id, seen[id], all, "reported maximum");
        }
        break;
      }
      case 'g': {
        auto id = name + "|statistic=gauge";
        used.insert(id);
        one_of(id, seen[id], all, "reported value");
        if (t.count > 0) {
          c.check_f(!got.back().empty() && seen.count(id), [&] { return id + " is not reported"; });
          one_of(id, {seen[id].back()}, last, "last value");
        }
        break;
      }
      case 'A': {
        auto id = name + "|statistic=gauge";
        used.insert(id);
        all.push_back(0);
        all.push_back(static_cast<double>(kStart / kSec));  // never updated so far
        one_of(id, seen[id], all, "reported age");
        if (t.count > 0) one_of(id, {seen[id].back()}, last, "last age");
        break;
      }
      case 'C':
      case 'U':
        want(name + "|statistic=count", static_cast<double>(mono[k]), sum, "the increase");
        break;
      case 'X': {
        auto id = name + "|statistic=count";
        used.insert(id);
        for (auto v : seen[id])
          c.check_f(std::fabs(v - 3) < 1e-9, [&] { return id + ": a source that grows by 3 per second is reported with " + dstr(v); });
        if (t.count > 0) c.check_f(!seen[id].empty(), [&] { return id + " is never reported"; });
        break;
      }
    }
  }
  for (auto& s : sum)
    c.check_f(used.count(s.first) || s.first.compare(0, 1, "m") != 0, [&] { return "unexpected measurement " + s.first; });
  c.label(keep ? "shared handles" : "looked up concurrently");
  finish(c, res);
  c.nontrivial(false);
  (void)contended;
}

// ---- age gauges: the limit, deletion ---------------------------------------------
void ages(Ctx& c) {
  vclock_set(kStart);
  auto limit = static_cast<size_t>(c.range(0, 3));
  auto before = static_cast<size_t>(c.range(0, static_cast<int64_t>(limit)));
  auto nt = c.range(1, 3);
  std::vector<std::vector<int>> ids(static_cast<size_t>(nt));
  std::set<int> distinct;
  for (size_t i = 0; i < before; ++i) distinct.insert(100 + static_cast<int>(i));
  for (auto& t : ids) {
    auto n = c.range(1, 3);
    for (int64_t i = 0; i < n; ++i) {
      t.push_back(static_cast<int>(c.chance(1, 4) && before > 0 ? 100 + c.draw(before) : c.draw(4)));
      distinct.insert(t.back());
    }
  }
  auto reports = c.draw(3);
  int deletes = c.chance(1, 3) ? static_cast<int>(c.draw(2)) + 1 : 0;
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) {
    os << "age gauges, limit " << limit << ", " << before << " before, " << reports << " reports, deletion " << deletes << "\n";
    for (auto& t : ids) {
      os << "thread:";
      for (auto i : t) os << " " << i;
      os << "\n";
    }
    os << plan_text(plan);
  });
  auto name = [](int i) { return "age" + std::to_string(i); };
  auto res = sched::run(plan, [&] {
    TestRegistry r(config(false, limit), null_logger());
    for (size_t i = 0; i < before; ++i) r.GetAgeGauge(name(100 + static_cast<int>(i)))->UpdateLastSuccess(kStart - 7 * kSec);
    auto look = [&](bool all) {
      auto m = r.Measurements();
      std::set<std::string> seen;
      for (auto& x : m) {
        auto s = id_str(x.id);
        if (s.compare(0, 3, "age") != 0) continue;
        if (!seen.insert(s).second) sched::fail(s + " is reported twice in one report");
        if (x.value != 7) sched::fail(s + " is reported with " + dstr(x.value));
      }
      if (seen.size() > limit) sched::fail("with a limit of " + std::to_string(limit) + ", " + std::to_string(seen.size()) + " age gauges are reported");
      if (deletes == 0)
        for (size_t i = 0; i < before; ++i)
          if (!seen.count(name(100 + static_cast<int>(i)) + "|statistic=gauge")) sched::fail("an age gauge is missing");
      if (all && deletes == 0 && seen.size() != std::min(limit, distinct.size()))
        sched::fail("with a limit of " + std::to_string(limit) + " and " + std::to_string(distinct.size()) + " ids, " + std::to_string(seen.size()) +
                    " age gauges are reported");
    };
    std::vector<std::function<void()>> b;
    for (auto& t : ids)
      b.emplace_back([&r, &t, &name] {
        for (auto i : t) {
          auto a = r.GetAgeGauge(name(i));
          if (!a) {
            sched::fail("no age gauge");
            return;
          }
          a->UpdateLastSuccess(kStart - 7 * kSec);
        }
      });
    if (reports)
      b.emplace_back([&] {
        for (uint64_t i = 0; i < reports; ++i) {
          // an age gauge counts from its creation, before the update
          auto m = r.Measurements();
          size_t n = 0;
          for (auto& x : m) n += id_str(x.id).compare(0, 3, "age") == 0;
          if (n > limit) sched::fail("with a limit of " + std::to_string(limit) + ", " + std::to_string(n) + " age gauges are reported");
        }
      });
    if (deletes)
      b.emplace_back([&] {
        if (deletes == 1)
          r.DeleteAllMeters("A");
        else
          for (int i = 0; i < 3; ++i) r.DeleteMeter("A", spectator::Id::Of(name(i)));
      });
    sched::go(b);
    if (r.AgeGauges().size() > limit) sched::fail("there are more age gauges than the limit");
    look(true);
    r.DeleteAllMeters("A");
    if (limit > 0) {
      r.GetAgeGauge("age50")->UpdateLastSuccess(kStart - 7 * kSec);
      if (r.AgeGauges().size() != 1) sched::fail("deletion does not make room");
    }
  });
  c.label("age gauges");
  finish(c, res);
}

// ---- lookups, expiry and deletion -------------------------------------------------
void churn(Ctx& c) {
  vclock_set(kStart);
  auto nt = c.range(1, 3);
  struct Act {
    int what, id;
  };
  std::vector<std::vector<Act>> acts(static_cast<size_t>(nt));
  for (auto& t : acts) {
    auto n = c.range(1, 4);
    for (int64_t i = 0; i < n; ++i) t.push_back({static_cast<int>(c.weighted({6, 2, 2, 2, 2, 2, 1})), static_cast<int>(c.draw(3))});
  }
  bool idle = c.flip();
  auto plan = sched::draw_plan(c);
  static const char* kWhat[] = {"use", "report", "expire", "delete", "delete all", "list", "common tags"};
  c.trace([&](auto& os) {
    os << "churn" << (idle ? ", all idle before" : "") << "\n";
    for (auto& t : acts) {
      os << "thread:";
      for (auto& a : t) os << " " << kWhat[a.what] << " " << a.id << ";";
      os << "\n";
    }
    os << plan_text(plan);
  });
  bool measures = false;
  int who = -1;  // reports come from one thread only
  for (size_t t = 0; t < acts.size(); ++t)
    for (auto& a : acts[t])
      if (a.what == 1) {
        if (who < 0) who = static_cast<int>(t);
        if (who != static_cast<int>(t)) a.what = 5;
        measures = true;
      }
  (void)measures;
  auto res = sched::run(plan, [&] {
    auto cfg = config(c.tracing() ? false : false, 2);
    cfg->meter_ttl = absl::Seconds(10);
    TestRegistry r(std::move(cfg), null_logger());
    auto use = [&](int i) {
      auto n = "n" + std::to_string(i);
      r.GetGauge(n)->Set(i);
      r.GetGauge(spectator::Id::Of(n), absl::Seconds(20))->Set(i);
      r.GetAgeGauge(n)->UpdateLastSuccess();
      r.GetCounter(n)->Increment();
      r.GetTimer(n)->Record(absl::Seconds(1));
      r.GetMaxGauge(n)->Set(1);
      r.GetMonotonicCounter(n)->Set(i);
      r.GetMonotonicCounterUint(n)->Set(static_cast<uint64_t>(i));
      r.GetMonotonicSampled(n)->Set(i, kStart + i);
      r.GetDistributionSummary(n)->Record(1);
    };
    for (int i = 0; i < 3; ++i) use(i);
    if (idle) vclock_advance(25 * kSec);
    std::vector<std::function<void()>> b;
    std::vector<spectator::Measurement> kept;
    for (auto& t : acts)
      b.emplace_back([&r, &t, &use, &kept] {
        for (auto& a : t) {
          auto id = spectator::Id::Of("n" + std::to_string(a.id));
          switch (a.what) {
            case 0: use(a.id); break;
            case 1: {
              auto m = r.Measurements();
              for (auto& x : m)
                if (std::string(x.id.Name().Get()).empty()) sched::fail("a measurement without a name");
              kept = std::move(m);
              break;
            }
            case 2: r.remove_expired_meters(); break;
            case 3: r.DeleteMeter(a.id & 1 ? "A" : "g", id); break;
            case 4: r.DeleteAllMeters(a.id & 1 ? "A" : "g"); break;
            case 5: {
              size_t n = 0;
              for (auto& m : r.GetMeters<spectator::Gauge>()) n += m->MeterId().GetTags().size() + (m->Get() > 5);
              for (auto& m : r.GetMeters<spectator::AgeGauge>()) n += m->MeterId().GetTags().size();
              for (auto& m : r.GetMeters<spectator::Timer>()) n += m->MeterId().GetTags().size() + static_cast<size_t>(m->Count() < 0);
              if (n != 0) sched::fail("a listed meter is wrong");
              break;
            }
            default:
              r.UpdateCommonTag("mantisUser", std::to_string(a.id));
              if (a.id == 2) r.EraseCommonTag("mantisUser");
              for (auto& kv : r.GetCommonTags())
                if (kv.first == "mantisUser" && kv.second.size() != 1) sched::fail("a common tag is torn");
          }
        }
      });
    sched::go(b);
    for (auto& x : kept)
      if (id_str(x.id).compare(0, 1, "n") != 0 && id_str(x.id).compare(0, 9, "spectator") != 0) sched::fail("a report changed later");
    // everything works as ever
    r.DeleteAllMeters("A");
    r.DeleteAllMeters("g");
    vclock_advance(30 * kSec);
    r.remove_expired_meters();
    use(1);
    std::map<std::string, double> got;
    for (auto& m : r.Measurements()) got[id_str(m.id)] = m.value;
    if (got["n1|statistic=count"] != 1 && got["n1|statistic=count"] != 2) sched::fail("a counter or timer is lost");
    if (!got.count("n1|statistic=gauge") || !got.count("n1|statistic=totalTime")) sched::fail("a meter is lost");
    for (auto& g : got)
      if (g.first.compare(0, 3, "n1|") != 0 && g.first.compare(0, 9, "spectator") != 0) sched::fail("a meter is still there: " + g.first);
  });
  c.label("lookup, expiry and deletion");
  finish(c, res);
}

// ---- strings ------------------------------------------------------------------------
void strings(Ctx& c) {
  auto nt = c.range(2, 3);
  std::vector<std::vector<std::string>> w(static_cast<size_t>(nt));
  auto n0 = c.range(0, 3);
  std::vector<std::string> first;
  auto text = [&] {
    static const char* k[] = {"a", "b", "a b", "a_b", "a/b", "", "abc", "x=y", "x_y"};
    return std::string(k[c.draw(9)]) + (c.chance(1, 5) ? std::to_string(c.draw(50)) : "");
  };
  for (int64_t i = 0; i < n0; ++i) first.push_back(text());
  for (auto& t : w) {
    auto n = c.range(1, 4);
    for (int64_t i = 0; i < n; ++i) t.push_back(text());
  }
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) {
    os << "interning; before:";
    for (auto& s : first) os << " " << quote(s);
    for (auto& t : w) {
      os << "\nthread:";
      for (auto& s : t) os << " " << quote(s);
    }
    os << "\n" << plan_text(plan);
  });
  std::vector<std::pair<std::string, spectator::StrRef>> got;
  spectator::StringPoolStats st{};
  auto res = sched::run(plan, [&] {
    auto* pool = new spectator::StringPool;
    std::vector<std::vector<std::pair<std::string, spectator::StrRef>>> mine(w.size());
    for (auto& s : first) got.emplace_back(s, pool->Intern(s.c_str(), s.size()));
    std::vector<std::function<void()>> b;
    for (size_t i = 0; i < w.size(); ++i)
      b.emplace_back([&, i] {
        for (auto& s : w[i]) {
          auto ref = pool->Intern(s.c_str(), s.size());
          if (model::clean(s) != ref.Get()) sched::fail("interning " + quote(s) + " gives " + quote(ref.Get()));
          mine[i].emplace_back(s, ref);
        }
      });
    b.emplace_back([&] {
      auto x = pool->Stats();
      if (x.table_size > 100 || x.hits + x.misses > 100) sched::fail("the pool statistics are nonsense");
    });
    sched::go(b);
    for (auto& m : mine) got.insert(got.end(), m.begin(), m.end());
    st = pool->Stats();
    for (auto& x : got)
      for (auto& y : got)
        if ((x.second == y.second) != (model::clean(x.first) == model::clean(y.first)))
          sched::fail("the references of " + quote(x.first) + " and " + quote(y.first) + " are wrong");
    for (auto& x : got)
      if (model::clean(x.first) != x.second.Get()) sched::fail("the reference of " + quote(x.first) + " now reads " + quote(x.second.Get()));
    delete pool;
  });
  std::set<std::string> distinct;
  size_t bytes = 0;
  for (auto& x : got)
    if (distinct.insert(model::clean(x.first)).second) bytes += x.first.size() + 1;
  c.check_f(!res.failure.empty() || (st.hits + st.misses == got.size() && st.misses == distinct.size() && st.table_size == distinct.size() && st.alloc_size == bytes),
            [&] {
              return "statistics of the pool after " + std::to_string(got.size()) + " calls with " + std::to_string(distinct.size()) + " texts: hits " +
                     std::to_string(st.hits) + " misses " + std::to_string(st.misses) + " size " + std::to_string(st.table_size) + " bytes " +
                     std::to_string(st.alloc_size);
            });
  c.label("strings");
  finish(c, res);
}

// ---- the cache of percentile meters --------------------------------------------------
struct Obj {
  static std::atomic<int> made, gone;
  int uses = 0;
  explicit Obj() { ++made; }
  ~Obj() { ++gone; }
};
std::atomic<int> Obj::made{0}, Obj::gone{0};

void cache(Ctx& c) {
  vclock_set(kStart);
  auto nt = c.range(1, 3);
  std::vector<std::vector<int>> ids(static_cast<size_t>(nt));
  for (auto& t : ids) {
    auto n = c.range(1, 3);
    for (int64_t i = 0; i < n; ++i) t.push_back(static_cast<int>(c.draw(3)));
  }
  auto exps = c.draw(3);
  bool idle = c.flip();
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) {
    os << "cache, " << exps << " expiry runs" << (idle ? ", 0 and 1 idle before" : "") << "\n";
    for (auto& t : ids) {
      os << "thread:";
      for (auto i : t) os << " " << i;
      os << "\n";
    }
    os << plan_text(plan);
  });
  auto res = sched::run(plan, [&] {
    Obj::made = Obj::gone = 0;
    TestRegistry r(config(), null_logger());
    size_t went = 0;
    {
      spectatord::expiring_cache<Obj> ch([](spectator::Registry*, spectator::Id) { return std::make_unique<Obj>(); });
      auto id = [](int i) { return spectator::Id::Of("o" + std::to_string(i)); };
      std::map<int, std::set<Obj*>> seen;
      for (int i = 0; i < 2; ++i) {
        auto o = &*ch.get_or_create(&r, id(i));
        if (!idle) seen[i].insert(o);
      }
      if (idle) vclock_advance(121 * kSec);
      std::vector<std::vector<std::pair<int, Obj*>>> mine(ids.size());
      std::vector<std::function<void()>> b;
      for (size_t t = 0; t < ids.size(); ++t)
        b.emplace_back([&, t] {
          for (auto i : ids[t]) {
            auto o = &*ch.get_or_create(&r, id(i));
            if (!o) sched::fail("no object");
            mine[t].emplace_back(i, o);
          }
        });
      if (exps)
        b.emplace_back([&] {
          for (uint64_t i = 0; i < exps; ++i) {
            auto e = ch.expire();
            went += e.second;
            if (e.first > 3 || e.second > 2 || e.second > e.first) sched::fail("an expiry run tells nonsense");
          }
        });
      sched::go(b);
      for (auto& m : mine)
        for (auto& x : m) seen[x.first].insert(x.second);
      std::set<Obj*> all;
      for (auto& s : seen) {
        if (s.second.size() != 1) sched::fail("one id has several objects");
        for (auto* o : s.second)
          if (!all.insert(o).second) sched::fail("two ids have the same object");
        if (&*ch.get_or_create(&r, id(s.first)) != *s.second.begin()) sched::fail("the object of an id in use changed");
      }
      if (Obj::gone != static_cast<int>(went)) sched::fail("an expiry run told " + std::to_string(went) + " and destroyed " + std::to_string(Obj::gone));
    }
    if (Obj::made != Obj::gone) sched::fail("objects are left behind");
  });
  c.label("percentile cache");
  finish(c, res);
}

// ---- publishing with several sender threads ---------------------------------------------
void publish(Ctx& c) {
  vclock_set(kStart);
  auto n = c.range(1, 12);
  auto batch = c.range(1, 5);
  unsigned threads = static_cast<unsigned>(c.range(1, 4));
  auto more = c.range(0, 2);
  auto bad = c.weighted({4, 1, 1});
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) { os << "publish " << n << " counters in batches of " << batch << " with " << threads << " threads, answers " << bad << "\n" << plan_text(plan); });
  vf::g_hw_threads = threads;
  std::atomic<int> requests{0};
  http->start([&](const HttpReq&) {
    HttpRep r;
    auto k = ++requests;
    if (bad == 1 && k % 2 == 0) {
      r.status = 400;
      r.body = "{\"errorCount\":1,\"message\":[\"no\"]}";
    } else if (bad == 2 && k % 2 == 0) {
      r.status = 404;
    }
    return r;
  });
  auto res = sched::run(plan, [&] {
    auto cfg = config(true);
    cfg->uri = "http://127.0.0.1:" + std::to_string(http->port()) + "/api";
    cfg->batch_size = static_cast<int>(batch);
    cfg->frequency = absl::Seconds(5);
    cfg->expiration_frequency = absl::Seconds(60);
    cfg->external_enabled = false;
    cfg->common_tags = {{"nf.app", "x"}};
    TestRegistry r(std::move(cfg), null_logger());
    for (int64_t i = 0; i < n; ++i) r.GetCounter("p" + std::to_string(i))->Add(static_cast<double>(i + 1));
    r.Start();
    sched::go({[&] {
      for (int64_t i = 0; i < more; ++i) {
        r.GetCounter("late")->Increment();
        timespec ts{7, 0};
        nanosleep(&ts, nullptr);
      }
      timespec ts{1, 0};
      nanosleep(&ts, nullptr);
      sched::forbid_timeouts("while the registry was being stopped");
      r.Stop();
      sched::forbid_timeouts(nullptr);
    }});
  });
  vf::g_hw_threads = 1;
  if (res.failure.empty()) {
    std::map<std::string, double> got;
    auto rs = http->requests();
    for (auto& q : rs) {
      auto p = decode_payload(c, q.body);
      c.check_f(p.size() <= static_cast<size_t>(batch), [&] { return "a request has " + std::to_string(p.size()) + " measurements"; });
      for (auto& m : p) got[m.id()] += m.value;
    }
    for (int64_t i = 0; i < n; ++i) {
      auto id = "p" + std::to_string(i) + "|nf.app=x|statistic=count";
      c.check_f(got[id] == static_cast<double>(i + 1), [&] { return id + " was published as " + dstr(got[id]) + ", recorded was " + std::to_string(i + 1); });
    }
  }
  c.label("publishing");
  c.label_if(threads > 1 && n > batch, "several senders at work");
  finish(c, res);
}

// ---- common tags --------------------------------------------------------------------------
void common(Ctx& c) {
  auto nt = c.range(1, 3);
  std::vector<std::vector<int>> w(static_cast<size_t>(nt));  // 0 erases
  for (auto& t : w) {
    auto n = c.range(1, 4);
    for (int64_t i = 0; i < n; ++i) t.push_back(static_cast<int>(c.draw(3)));
  }
  auto reads = c.range(1, 4);
  bool there = c.flip();
  auto plan = sched::draw_plan(c);
  c.trace([&](auto& os) {
    os << "common tags" << (there ? " set before" : "") << ", " << reads << " reads\n";
    for (auto& t : w) {
      os << "thread:";
      for (auto i : t) os << (i ? " set" : " erase");
      os << "\n";
    }
    os << plan_text(plan);
  });
  auto res = sched::run(plan, [&] {
    auto cfg = config();
    cfg->common_tags = {{"nf.app", "x"}};
    if (there)
      for (int64_t t = 0; t < nt; ++t) cfg->common_tags["k" + std::to_string(t)] = "0";
    TestRegistry r(std::move(cfg), null_logger());
    // the state of key t after its i-th change; -1: not there
    std::vector<std::vector<int>> states;
    for (auto& t : w) {
      states.push_back({there ? 0 : -1});
      int i = 0;
      for (auto x : t) states.back().push_back(x ? ++i : (++i, -1));
    }
    std::vector<std::function<void()>> b;
    for (size_t t = 0; t < w.size(); ++t)
      b.emplace_back([&, t] {
        int i = 0;
        auto k = "k" + std::to_string(t);
        for (auto x : w[t]) {
          ++i;
          if (x)
            r.UpdateCommonTag(k, std::to_string(i));
          else
            r.EraseCommonTag(k);
        }
      });
    auto read = [&](std::vector<size_t>* at) {
      auto m = r.GetCommonTags();
      if (m["nf.app"] != "x" || m.size() > w.size() + 1) sched::fail("the common tags are wrong");
      for (size_t t = 0; t < w.size(); ++t) {
        auto it = m.find("k" + std::to_string(t));
        int v = it == m.end() ? -1 : atoi(it->second.c_str());
        auto& s = states[t];
        // somewhere not before what was seen last
        size_t i = (*at)[t];
        while (i < s.size() && s[i] != v) ++i;
        if (i == s.size()) {
          sched::fail("common tag k" + std::to_string(t) + " has a value that it never got or lost before");
          return;
        }
        (*at)[t] = i;
      }
    };
    b.emplace_back([&] {
      std::vector<size_t> at(w.size());
      for (int64_t i = 0; i < reads; ++i) read(&at);
    });
    sched::go(b);
    std::vector<size_t> at;
    for (auto& s : states) at.push_back(s.size() - 1);
    read(&at);
  });
  c.label("common tags");
  finish(c, res);
}

// statics and interned strings, so that a case does the same in every process
void warm();

void init() {
  quiet_logs();
  http = new HttpServer;
  warm();
}

constexpr uint64_t kScenarios = 7;
void one(Ctx& c) {
  switch (c.weighted({20, 6, 8, 4, 4, 2, 3})) {
    case 0: meters(c); break;
    case 1: ages(c); break;
    case 2: churn(c); break;
    case 3: strings(c); break;
    case 4: cache(c); break;
    case 5: publish(c); break;
    default: common(c);
  }
}

void warm() {
  // every scenario once, without preemptions
  std::vector<std::vector<uint64_t>> seeds;
  for (uint64_t k = 0; k < kScenarios; ++k) {
    Ctx c({k}, true, 0, false);
    try {
      one(c);
    } catch (const Failure&) {
    } catch (const Discard&) {
    }
  }
  for (uint64_t s = 1; s <= 30; ++s) {
    TestRegistry r(config(), null_logger());
    MeterWorld w{r, true, {}};
    for (char k : std::string("cdtmgCUXATD"))
      for (int i = 0; i < 3; ++i) {
        w.open(k, i);
        w.apply({k, i, 0}, 0);
        w.apply({k, i, 1}, 0);
      }
    r.Measurements();
    vclock_set(kStart);
  }
}

Reg c10{{"C10",
         "A case is a set of threads and a schedule for them (up to 5 preemptions at memory accesses, atomic operations or lock operations of the program, and who runs next). The threads record into "
         "shared meters of nine kinds, by one handle or by concurrent lookups, while one reports and another expires, deletes and lists; or they create age gauges up to the limit, intern strings, "
         "use the percentile cache while it expires, change common tags, or publish with several senders. Oracle: what all reports say together is what was recorded (sum, count, squares, maximum, "
         "increase, rate, last value), the limit, identity and statistics of strings and cache objects, and a happens-before analysis: no unordered conflicting accesses, no use of freed memory, no "
         "deadlock. Non-trivial: at least one preemption took place.",
         48000, 1500000, one, false, false, 8, 60, 45, 700, init,
         {"schedules are interleavings: effects of weak memory beyond them show up as data races only", "libraries are not instrumented",
          "one thread reports, as in the program"}}};

// The same scenarios as second stages of the properties that they bear on
// (check.py), each restricted to what its property is about.
const std::vector<std::string> kStageAssumptions{"schedules are interleavings of at most 5 preemptions", "one thread reports, as in the program"};
struct Stage {
  Stage(const char* id, const char* what, PropFn fn, uint64_t quick = 20000) {
    register_prop({std::string(id) + "+threads",
                   std::string("Second stage, under generated thread schedules as for C10: ") + what + " Non-trivial: at least one preemption took place.", quick, quick * 25,
                   std::move(fn), false, false, 8, 60, 12, 150, init, kStageAssumptions});
  }
};
Stage s06{"C06", "counters, timers, summaries and max gauges recorded into and reported by several threads.", [](Ctx& c) { meters(c, "cdtm"); }};
Stage s07{"C07", "gauges set by several threads while they are reported: every reported value was set, the last report has the last one.", [](Ctx& c) { meters(c, "g"); }};
Stage s08{"C08", "monotonic counters set by one thread while another reports: the reports add up to the increase.", [](Ctx& c) { meters(c, "CU"); }};
Stage s09{"C09", "sampled sources set by one thread while another reports: a source of constant rate is reported with that rate.", [](Ctx& c) { meters(c, "X"); }};
Stage s11{"C11", "several threads intern texts, some of them the same; values, identity and statistics as before.", strings};
Stage s14{"C14", "percentile meters recorded into by several threads while they are reported: each value counts once.", [](Ctx& c) { meters(c, "TD"); }};
Stage s17{"C17", "publishing with one to four senders: each measurement in one request.", publish, 3000};
Stage s18{"C18", "publishing with one to four senders to an aggregator that rejects some requests.", publish, 3000};
Stage s20{"C20", "lookups, records, expiry, deletion, listings and reports by several threads.", [](Ctx& c) {
            if (c.flip()) churn(c); else meters(c);
          }};
Stage s21{"C21", "age gauges made by several threads up to the limit, reported and deleted meanwhile.", ages};
Stage s23{"C23", "common tags changed by several threads while they are read.", common};
Stage s25{"C25", "reports are kept while other threads record, expire and delete.", churn};
Stage s28{"C28", "the percentile cache used by several threads while it expires.", cache};

// the expirer takes a meter from the registry between a lookup of it and the
// record through what the lookup gave, as the daemon's threads may
KnownReg expiry_race{{"record-of-expired", 5.0, [] {
                        quiet_logs();
                        vclock_set(kStart);
                        TestRegistry r(config(), null_logger());
                        r.GetCounter("idle")->Add(1);
                        r.Measurements();
                        vclock_advance(3600LL * kSec);
                        auto found = r.GetCounter("idle");
                        r.remove_expired_meters();
                        found->Add(1);
                        auto ms = r.Measurements();
                        bool reported = std::any_of(ms.begin(), ms.end(), [](auto& m) { return m.id.Name().Get() == std::string("idle"); });
                        _exit(reported ? 0 : 1);
                      }}};
}  // namespace
