// Generation of protocol lines together with their meaning.
#pragma once
#include "gen.h"
#include "model.h"

namespace lines {
using model::Model;
using vf::Ctx;

struct Pool {
  std::vector<gen::RawId> ids;
};

inline const gen::RawId& pick_id(Ctx& c, Pool* pool) {
  // mostly reuse, so that histories per meter get long
  if (pool->ids.empty() || (pool->ids.size() < 12 && c.chance(1, 4))) {
    pool->ids.push_back(gen::raw_id(c, ":,\n", "=:,\n", ":,\n"));
  }
  return pool->ids[c.draw(pool->ids.size())];
}

inline std::string spell(const gen::RawId& id) {
  auto s = id.name;
  for (auto& t : id.tags) s += "," + t.first + "=" + t.second;
  return s;
}

inline double bounded(double d, double lim) { return std::fabs(d) > lim ? std::fmod(d, lim) : d; }

// A line of the main protocol; applies it to m.  `kind` out: the type letter.
// as seconds these are about the longest and more than a duration in nanoseconds can be
inline const std::vector<int64_t> kHugeTtl{4000000000, INT64_MAX / model::kSec, INT64_MAX / model::kSec + 1, INT64_MAX};

inline std::string line(Ctx& c, Pool* pool, Model* m, char* kind, const char* types = "cdtmgTDCUAX") {
  Ctx::Span sp(c);
  char type = types[c.draw(strlen(types))];
  *kind = type;
  const auto& raw = pick_id(c, pool);
  auto id = raw.id();
  std::string prefix(1, type);
  std::string value;
  auto junk = [&] {
    // text after the number is ignored
    if (c.chance(1, 24)) value += c.pick({" ", "\t", "\r", "abc", ",x=1", " 12", "|c"});
  };
  auto nan_text = [&]() -> bool {
    if (!c.chance(1, 40)) return false;
    value = c.pick({"nan", "NaN", "-nan"});
    return true;
  };
  switch (type) {
    case 'c':
      if (nan_text()) {
        m->counter(id, NAN);
      } else {
        auto d = c.number(true);
        value = gen::number_text(c, d);
        m->counter(id, d);
      }
      break;
    case 'd':
      if (nan_text()) {
        m->dist(id, NAN);
      } else {
        auto d = c.number(true);
        value = gen::number_text(c, d);
        m->dist(id, d);
      }
      break;
    case 't': {
      auto d = bounded(c.number(true), 1e6);
      value = gen::number_text(c, d);
      m->timer(id, static_cast<int64_t>(d * 1e9));
      break;
    }
    case 'm':
      if (nan_text()) {
        m->max(id, NAN);
      } else {
        auto d = c.number(true);
        value = gen::number_text(c, d);
        m->max(id, d);
      }
      break;
    case 'g': {
      std::optional<int64_t> ttl;
      if (c.flip()) {
        ttl = c.chance(1, 3) ? c.range(1, 7) : c.chance(1, 6) ? c.pick(kHugeTtl) : c.size(1, 100000);
        prefix += "," + std::to_string(*ttl);
      }
      if (nan_text()) {
        m->gauge(id, NAN, ttl);
      } else {
        auto d = c.number(true);
        value = gen::number_text(c, d);
        m->gauge(id, d, ttl);
      }
      break;
    }
    case 'T': {
      auto d = bounded(c.number(true), 1e6);
      value = gen::number_text(c, d);
      m->perc_timer(id, static_cast<int64_t>(d * 1e9));
      break;
    }
    case 'D': {
      auto d = bounded(c.number(true), 9e18);
      value = gen::number_text(c, d);
      m->perc_dist(id, static_cast<int64_t>(d));
      break;
    }
    case 'C':
      if (nan_text()) {
        m->mono(id, NAN);
      } else {
        auto d = c.number(true);
        value = gen::number_text(c, d);
        m->mono(id, d);
      }
      break;
    case 'U': {
      uint64_t u = c.weighted({3, 1, 1}) == 0 ? c.draw(1000) : c.draw(0);
      if (c.chance(1, 4)) u = ~u;
      value = std::to_string(u);
      m->monou(id, u);
      break;
    }
    case 'X': {
      // milliseconds since the epoch: around now, mostly moving forward
      int64_t ms = m->now / 1000000 + c.range(-3000, 3000);
      if (c.chance(1, 10)) ms = c.size(1, 9223372036854LL);
      auto d = bounded(c.number(true), 1e15);
      prefix += "," + std::to_string(ms);
      value = gen::number_text(c, d);
      m->sample(id, d, ms * 1000000);
      break;
    }
    case 'A': {
      if (c.flip()) {
        value = c.pick({"0", "0.0", "0e0"});
        m->age(id, m->now);
      } else {
        auto ago = bounded(c.number(false), 1e9);
        double at = static_cast<double>(m->now) / 1e9 - ago;
        value = gen::number_text(c, at);
        m->age(id, static_cast<int64_t>(at * 1e9));
      }
      break;
    }
  }
  junk();
  return prefix + ":" + spell(raw) + ":" + value;
}


// A line that the protocol does not allow.
inline std::string bad_line(Ctx& c, Pool* pool) {
  Ctx::Span sp(c);
  auto id = spell(pick_id(c, pool));
  auto name = pick_id(c, pool).name;
  std::string t(1, "cdtmgTDCUA"[c.draw(10)]);
  auto not_number = [&] {
    return std::string(c.pick({"abc", "", "x1", "-", "+", ".", " ", "e5", "--1", ",1", "|1", "ten", "\t"}));
  };
  switch (c.draw(9)) {
    case 0: {  // unknown type
      char ch = static_cast<char>(c.flip() ? 1 + c.draw(255) : 'a' + c.draw(26));
      if (strchr("AcCdDgmtTUX\n", ch) != nullptr) ch = 'q';
      return std::string(1, ch) + ":" + id + ":1";
    }
    case 1: {  // no separator after the type
      auto s = gen::text(c, ":,\n", 1, 10);
      return t + s + ":" + id + ":1";
    }
    case 2:  // no name
      return t + (c.flip() ? "::1" : ":,a=b:1");
    case 3:  // nothing after the name
      return t + ":" + name;
    case 4:  // no value
      return t + ":" + id + ":" + not_number();
    case 5:  // ends in the tags
      if (c.flip()) return t + ":" + spell(pick_id(c, pool)) + ",";
      return t + ":" + name + ",k=" + gen::text(c, ":,\n", 0, 5);
    case 6:  // ttl of a gauge
      return std::string("g,") + c.pick({"0", "-1", "abc", "", "-9223372036854775808", "x5"}) + ":" + id + ":1";
    case 7:  // timestamp of a sampled source
      return std::string("X,") + c.pick({"0", "-1", "abc", "", "-1543160297100"}) + ":" + id + ":1";
    default:
      return c.pick({"c", "g,5", ":", "::", "c:", "c:a", "t:a:", "nonsense", "X", "U:n:-", "g,5,6:a:1", "=", ",", "5", "17:n:1", "0.5"});
  }
}

// ---- statsd -----------------------------------------------------------------
inline double statsd_rate(Ctx& c) {
  switch (c.weighted({3, 3, 2, 1})) {
    case 0:
      return 1;
    case 1:
      return 1.0 / static_cast<double>(c.range(1, 50));
    case 2:
      return static_cast<double>(c.range(1, 1000)) / 1000;
    default:
      return 1.0 / static_cast<double>(c.range(1, 2000));
  }
}

struct StatsdTags {
  std::vector<std::pair<std::string, std::string>> tags;  // empty value: a marker
};
struct StatsdId {
  std::string name;
  StatsdTags tags;
  std::string text() const {
    std::string s;
    for (auto& t : tags.tags) {
      s += s.empty() ? "#" : ",";
      s += t.first;
      if (!t.second.empty()) s += ":" + t.second;
    }
    return s;
  }
  model::MId id() const {
    model::MId m;
    m.name = model::clean(name);
    for (auto& t : tags.tags) m.tags[model::clean(t.first)] = t.second.empty() ? "1" : model::clean(t.second);
    return m;
  }
};
struct StatsdPool {
  std::vector<StatsdId> ids;
};
inline const StatsdId& statsd_id(Ctx& c, StatsdPool* pool, bool may_be_long = true) {
  if (pool->ids.empty() || (pool->ids.size() < 10 && c.chance(1, 4))) {
    Ctx::Span sp(c);
    StatsdId id;
    id.name = gen::text(c, ":\n", 1, 40);
    auto longer = may_be_long && c.chance(1, 50) ? 1 + c.draw(3) : 0;
    if (longer == 1) gen::lengthen(c, &id.name);
    auto n = c.weighted({4, 4, 2, 1}) == 3 ? c.range(0, 14) : static_cast<int64_t>(c.draw(4));
    for (int64_t i = 0; i < n; ++i) {
      if (c.chance(1, 10)) {
        id.tags.tags.emplace_back("statistic", c.pick({"count", "gauge", "max", "totalAmount", "duration"}));
      } else {
        auto k = gen::text(c, ":,\n", 1, 12);
        auto v = c.chance(1, 4) ? std::string() : gen::text(c, ":,\n", 1, 12);
        if (i == 0 && longer > 1) gen::lengthen(c, longer == 2 ? &k : &v);
        id.tags.tags.emplace_back(k, v);
      }
    }
    pool->ids.push_back(id);
  }
  return pool->ids[c.draw(pool->ids.size())];
}

inline std::string statsd_line(Ctx& c, StatsdPool* pool, Model* m, char* kind) {
  Ctx::Span sp(c);
  static const char* kTypes[] = {"c", "g", "h", "ms", "s"};
  std::string type = kTypes[c.weighted({4, 3, 3, 3, 1})];
  *kind = type[0];
  const auto& sid = statsd_id(c, pool);
  auto id = sid.id();
  auto d = c.number(true);
  if (type == "ms") d = bounded(d, 1e9);
  if (type == "h") d = bounded(d, 1e12);
  auto value = gen::number_text(c, d);
  std::string rate_text;
  double rate = 1;
  if (c.chance(2, 5)) {
    auto r = statsd_rate(c);
    rate_text = gen::number_text(c, r);
    rate = r;
  }
  if (type == "c") {
    m->counter(id, d / rate);
  } else if (type == "g") {
    m->gauge(id, d, std::nullopt);
  } else if (type == "h") {
    auto k = std::lround(1 / rate);
    for (long i = 0; i < k; ++i) m->dist(id, d);
  } else if (type == "ms") {
    auto k = std::lround(1 / rate);
    for (long i = 0; i < k; ++i) m->timer(id, std::llround(d * 1e6));
  }
  auto s = sid.name + ":" + value + "|" + type;
  if (!rate_text.empty()) s += "|@" + rate_text;
  auto t = sid.text();
  if (!t.empty()) s += "|" + t;
  return s;
}

inline std::string bad_statsd_line(Ctx& c, StatsdPool* pool) {
  Ctx::Span sp(c);
  const auto& sid = statsd_id(c, pool);
  std::string type = c.pick({"c", "g", "h", "ms", "s"});
  switch (c.draw(7)) {
    case 0:  // no name
      return ":1|" + type;
    case 1:  // no colon at all
      return gen::text(c, ":\n", 1, 20) + "|" + type;
    case 2:  // no value
      return sid.name + ":" + c.pick({"", "abc", "-", "|", "x1"}) + "|" + type;
    case 3:  // no type
      return sid.name + ":1" + c.pick({"", " ", "|", "c", ",c", "||c"});
    case 4:  // unknown type
      return sid.name + ":1|" + c.pick({"x", "C", "m", "mx", "d", "1", " c", "#a:b", "@0.5"});
    case 5:  // sampling rate outside (0,1]
      return sid.name + ":1|" + type + "|@" +
             c.pick({"0", "-0.5", "1.5", "nan", "inf", "abc", "", "-nan", "1.0000001", "1e300"});
    default:  // empty tags
      return sid.name + ":1|" + type + "|#" + c.pick({"", "a:b,", "a,", "a:"});
  }
}

}  // namespace lines
