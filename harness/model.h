// Reference model of what the daemon reports, written from the protocol
// documentation and kept deliberately naive.
#pragma once
#include "engine.h"

#include <algorithm>
#include <cmath>
#include <cstdint>
#include <map>
#include <optional>
#include <string>
#include <vector>

namespace model {

inline std::string clean(std::string_view s) {  // the Atlas charset
  std::string o{s};
  for (auto& ch : o) {
    bool ok = (ch >= '0' && ch <= '9') || (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z') || ch == '.' ||
              ch == '-' || ch == '_' || ch == '~' || ch == '^';
    if (!ok) ch = '_';
  }
  return o;
}

struct MId {
  std::string name;
  std::map<std::string, std::string> tags;
  bool operator<(const MId& o) const { return name != o.name ? name < o.name : tags < o.tags; }
  bool operator==(const MId& o) const { return name == o.name && tags == o.tags; }
  std::string str() const {
    auto s = name;
    for (auto& t : tags) s += "|" + t.first + "=" + t.second;
    return s;
  }
  MId with(const std::string& k, const std::string& v) const {
    MId m = *this;
    m.tags[k] = v;
    return m;
  }
  MId stat(const char* v) const { return with("statistic", v); }
  MId defstat(const char* v) const { return tags.count("statistic") ? *this : stat(v); }
};

// ---- percentile buckets, from the definition: 1,2,3 then for every power of
// four p the values p, p+p/3, ... below 4p - p/3, and finally int64 max
struct Buckets {
  std::vector<int64_t> v;
  std::vector<std::pair<int64_t, size_t>> base;  // power of four, index of it
  Buckets() {
    v = {1, 2, 3};
    for (int e = 2; e < 64; e += 2) {
      int64_t p = int64_t{1} << e;
      int64_t d = p / 3;
      // 4p - p/3 does not fit for the last power; the values stop before 2^64-p/3 as unsigned
      __int128 end = static_cast<__int128>(p) * 4 - d;
      if (e == 62) end = static_cast<__int128>(static_cast<int64_t>(static_cast<uint64_t>(end)));  // wraps in 64 bit
      base.emplace_back(p, v.size());
      for (__int128 c = p; c < end; c += d) v.push_back(static_cast<int64_t>(c));
    }
    v.push_back(std::numeric_limits<int64_t>::max());
  }
  size_t index(int64_t x) const {
    if (x <= 0) return 0;
    if (x <= 4) return static_cast<size_t>(x);
    size_t k = 0;
    while (k + 1 < base.size() && base[k + 1].first <= x) ++k;
    auto p = base[k].first;
    auto pos = base[k].second + static_cast<size_t>((x - p) / (p / 3)) + 1;
    return std::min(pos, v.size() - 1);
  }
};
inline const Buckets& buckets() {
  static const Buckets b;
  return b;
}
inline std::string bucket_tag(char kind, int64_t x) {
  char b[16];
  snprintf(b, sizeof b, "%c%04zX", kind, buckets().index(x));
  return b;
}

constexpr int64_t kSec = 1000000000LL;
using Report = std::vector<std::pair<std::string, double>>;

// Whether a value that is ignored (a negative or NaN amount, a sample that does
// not move the time) counts as use of the meter is not laid down: sure leaves
// such values out, updated does not.
struct Base {
  int64_t updated = 0, sure = 0;
  void touch(int64_t now, bool effective = true) {
    if (effective || sure == 0) sure = now;
    updated = now;
  }
  bool updated_at(int64_t t) const { return t == updated || t == sure; }
};
struct CounterM : Base {
  double v = 0;
};
struct DistM : Base {  // amounts in the unit they are recorded in
  uint64_t n = 0;
  double total = 0, sq = 0, max = 0;
};
struct MaxM : Base {
  bool has = false;
  double v = 0;
};
struct GaugeM : Base {
  double v = NAN;
  int64_t ttl = 5 * kSec;
};
struct AgeM : Base {
  int64_t last = 0;
};
struct MonoM : Base {
  double v = NAN, prev = NAN;
};
struct MonoUM : Base {
  bool set = false, init = false;
  uint64_t v = 0, prev = 0;
};

struct SampledM : Base {
  bool any = false, has_base = false;
  double v = 0, base_v = 0;
  int64_t ts = 0, base_ts = 0;
  void set(double d, int64_t at) {
    if (at <= ts) return;  // out of order
    if (any && !has_base) {
      has_base = true;
      base_v = v;
      base_ts = ts;
    }
    v = d;
    ts = at;
    any = true;
  }
  // rate per second since the base, which moves to the last point
  double rate() {
    if (!has_base || ts == base_ts) return 0;
    auto r = (v - base_v) / (static_cast<double>(ts - base_ts) / 1e9);
    base_v = v;
    base_ts = ts;
    return r;
  }
};

struct Model {
  int64_t now = 0;
  int64_t ttl = 15 * 60 * kSec;    // registry
  int64_t gauge_ttl = 5 * kSec;    // default ttl of gauges
  size_t age_limit = 1000;

  std::map<MId, CounterM> counters;
  std::map<MId, DistM> dists, timers;
  std::map<MId, MaxM> maxes;
  std::map<MId, GaugeM> gauges;
  std::map<MId, AgeM> ages;
  std::map<MId, MonoM> monos;
  std::map<MId, MonoUM> monous;
  std::map<MId, SampledM> sampled;

  void counter(const MId& id, double d) {
    auto& c = counters[id];
    c.touch(now, d >= 0);
    if (d >= 0) c.v += d;
  }
  static void rec(DistM& d, double x) {
    d.n += 1;
    d.total += x;
    d.sq += x * x;
    d.max = std::max(d.max, x);
  }
  void dist(const MId& id, double d) {
    auto& c = dists[id];
    c.touch(now, d >= 0);
    if (d >= 0) rec(c, d);
  }
  void timer(const MId& id, int64_t ns) {
    auto& c = timers[id];
    c.touch(now, ns >= 0);
    if (ns >= 0) rec(c, static_cast<double>(ns));
  }
  void perc_timer(const MId& id, int64_t ns) {
    if (ns < 0 && timers.count(id) == 0) size_unsure = true;
    timer(id, ns);
    if (ns < 0) return;
    auto r = std::min<int64_t>(std::max<int64_t>(ns, 1), 24 * 3600 * kSec);
    counter(id.stat("percentile").with("percentile", bucket_tag('T', r)), 1);
  }
  void perc_dist(const MId& id, int64_t x) {
    if (x < 0) {
      if (dists.count(id) == 0) size_unsure = true;
      dists[id].touch(now, false);  // exists, nothing recorded
      return;
    }
    dist(id, static_cast<double>(x));
    counter(id.stat("percentile").with("percentile", bucket_tag('D', x)), 1);
  }
  void max(const MId& id, double d) {
    auto& c = maxes[id];
    c.touch(now, !std::isnan(d));
    if (std::isnan(d)) return;
    if (!c.has || d > c.v) c.v = d;
    c.has = true;
  }
  void gauge(const MId& id, double d, std::optional<int64_t> ttl_s) {
    auto it = gauges.find(id);
    if (it == gauges.end()) {
      it = gauges.emplace(id, GaugeM{}).first;
      it->second.ttl = std::max<int64_t>(gauge_ttl, 5 * kSec);
    }
    auto& c = it->second;
    if (ttl_s) c.ttl = *ttl_s > INT64_MAX / kSec ? INT64_MAX : std::max<int64_t>(*ttl_s, 5) * kSec;
    c.v = d;
    c.touch(now);
  }
  bool age(const MId& id, int64_t at) {
    auto it = ages.find(id);
    if (it == ages.end()) {
      if (ages.size() >= age_limit) return false;
      it = ages.emplace(id, AgeM{}).first;
    }
    it->second.last = at;
    return true;
  }
  void mono(const MId& id, double d) {
    auto& c = monos[id];
    c.touch(now);
    c.v = d;
  }
  void monou(const MId& id, uint64_t d) {
    auto& c = monous[id];
    c.touch(now);
    c.set = true;
    c.v = d;
  }

  void sample(const MId& id, double d, int64_t ts) {
    auto& c = sampled[id];
    c.touch(now, ts > c.ts);
    c.set(d, ts);
  }
  bool size_unsure = false;  // a value that was ignored may have made a meter
  size_t size() const {
    if (size_unsure) throw vf::Discard{};
    return counters.size() + dists.size() + timers.size() + maxes.size() + gauges.size() + ages.size() +
           monos.size() + monous.size() + sampled.size();
  }

  bool fresh(const Base& b, int64_t t) const {
    if ((now - b.updated <= t) != (now - b.sure <= t)) throw vf::Discard{};
    return now - b.updated <= t;
  }
  bool fresh(const Base& b) const { return fresh(b, ttl); }
  bool fresh(const GaugeM& b) const { return fresh(b, b.ttl); }

  static void report_dist(Report* r, const MId& id, DistM& d, const char* total, double unit) {
    if (d.n == 0) return;
    r->emplace_back(id.stat("count").str(), static_cast<double>(d.n));
    r->emplace_back(id.stat(total).str(), d.total / unit);
    r->emplace_back(id.stat("totalOfSquares").str(), d.sq / unit / unit);
    r->emplace_back(id.stat("max").str(), d.max / unit);
    Base b = d;
    d = DistM{};
    static_cast<Base&>(d) = b;
  }

  Report measure() {
    Report r;
    for (auto& kv : ages)
      r.emplace_back(kv.first.defstat("gauge").str(), static_cast<double>(now - kv.second.last) / 1e9);
    for (auto& kv : counters)
      if (fresh(kv.second) && kv.second.v > 0) {
        r.emplace_back(kv.first.defstat("count").str(), kv.second.v);
        kv.second.v = 0;
      }
    for (auto& kv : dists)
      if (fresh(kv.second)) report_dist(&r, kv.first, kv.second, "totalAmount", 1.0);
    for (auto& kv : timers)
      if (fresh(kv.second)) report_dist(&r, kv.first, kv.second, "totalTime", 1e9);
    for (auto& kv : gauges)
      if (fresh(kv.second) && !std::isnan(kv.second.v))
        r.emplace_back(kv.first.defstat("gauge").str(), kv.second.v);
    for (auto& kv : maxes)
      if (fresh(kv.second) && kv.second.has) {
        r.emplace_back(kv.first.stat("max").str(), kv.second.v);
        kv.second.has = false;
      }
    for (auto& kv : monos)
      if (fresh(kv.second)) {
        auto d = kv.second.v - kv.second.prev;
        kv.second.prev = kv.second.v;
        if (d > 0) r.emplace_back(kv.first.defstat("count").str(), d);
      }
    for (auto& kv : monous)
      if (fresh(kv.second) && kv.second.set) {
        auto& m = kv.second;
        if (m.init && m.v != m.prev) {
          uint64_t d = m.v - m.prev;  // modulo 2^64
          double dd = static_cast<double>(d);
          r.emplace_back(kv.first.defstat("count").str(), dd > 9.223372e+18 ? 0.0 : dd);
        }
        m.prev = m.v;
        m.init = true;
      }
    for (auto& kv : sampled)
      if (fresh(kv.second)) {
        auto d = kv.second.rate();
        if (d > 0) r.emplace_back(kv.first.stat("count").str(), d);
      }
    return r;
  }
  template <typename M>
  void drop(M* m) {
    for (auto it = m->begin(); it != m->end();) it = fresh(it->second) ? std::next(it) : m->erase(it);
  }
  void expire() {
    drop(&counters);
    drop(&dists);
    drop(&timers);
    drop(&gauges);
    drop(&maxes);
    drop(&monos);
    drop(&monous);
    drop(&sampled);
  }
};

inline bool close(double a, double b, double rel = 1e-9, double abs = 0) {
  if (a == b) return true;
  if (std::isnan(a) || std::isnan(b)) return std::isnan(a) && std::isnan(b);
  return std::fabs(a - b) <= std::max(abs, rel * std::max(std::fabs(a), std::fabs(b)));
}

// multiset comparison with a tolerance; empty string when equal
inline std::string diff(Report want, Report got, double rel = 1e-9, double abs = 2e-9) {
  auto less = [](const std::pair<std::string, double>& a, const std::pair<std::string, double>& b) {
    return a.first != b.first ? a.first < b.first : a.second < b.second;
  };
  std::sort(want.begin(), want.end(), less);
  std::sort(got.begin(), got.end(), less);
  std::string out;
  size_t i = 0, j = 0;
  int n = 0;
  while ((i < want.size() || j < got.size()) && n < 8) {
    if (j == got.size() || (i < want.size() && want[i].first < got[j].first)) {
      out += "  missing     " + want[i].first + " = " + vf::dstr(want[i].second) + "\n";
      ++i, ++n;
    } else if (i == want.size() || got[j].first < want[i].first) {
      out += "  unexpected  " + got[j].first + " = " + vf::dstr(got[j].second) + "\n";
      ++j, ++n;
    } else {
      if (!close(want[i].second, got[j].second, rel, abs)) {
        out += "  " + want[i].first + ": expected " + vf::dstr(want[i].second) + ", reported " +
               vf::dstr(got[j].second) + "\n";
        ++n;
      }
      ++i, ++j;
    }
  }
  return out;
}

}  // namespace model
