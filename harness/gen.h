#pragma once
#include "engine.h"
#include "model.h"

#include <cstdio>
#include <string>
#include <vector>

namespace gen {
using vf::Ctx;

// text of arbitrary bytes (never NUL), none of `forbidden`
inline std::string text(Ctx& c, const char* forbidden, int64_t min_len, int64_t max_len) {
  static const char kPlain[] = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-";
  auto n = c.size(min_len, max_len);
  auto style = c.weighted({6, 2, 1});
  std::string s;
  for (int64_t i = 0; i < n; ++i) {
    char ch;
    if (style == 0 || (style == 1 && !c.chance(1, 4))) {
      ch = kPlain[c.draw(sizeof kPlain - 1)];
    } else {
      ch = static_cast<char>(1 + c.draw(255));
    }
    if (strchr(forbidden, ch) != nullptr) ch = 'q';
    s += ch;
  }
  return s;
}

// now and then a text gets long, at its front or its end, around the usual limits of buffers
inline void lengthen(Ctx& c, std::string* s) {
  static const std::vector<int64_t> kAround{64, 100, 128, 255, 256, 512, 1000, 1024, 2048, 4096};
  auto n = static_cast<size_t>(c.pick(kAround) + c.range(-2, 40));
  std::string run(n, "xyz7"[c.draw(4)]);
  *s = c.flip() ? run + *s : *s + run;
}

struct RawId {  // as written on the wire
  std::string name;
  std::vector<std::pair<std::string, std::string>> tags;
  model::MId id() const {
    model::MId m;
    m.name = model::clean(name);
    for (auto& t : tags) m.tags[model::clean(t.first)] = model::clean(t.second);
    return m;
  }
};

inline RawId raw_id(Ctx& c, const char* name_forbidden, const char* key_forbidden, const char* val_forbidden,
                    int64_t max_name = 40, int64_t max_tags = 14, bool may_be_long = true) {
  RawId r;
  Ctx::Span sp(c);
  r.name = text(c, name_forbidden, 1, max_name);
  auto longer = may_be_long && c.chance(1, 50) ? 1 + c.draw(3) : 0;  // the name, or a tag
  if (longer == 1) lengthen(c, &r.name);
  auto n = c.weighted({4, 4, 2, 1}) == 3 ? c.range(0, max_tags) : c.draw(4);
  for (int64_t i = 0; i < static_cast<int64_t>(n); ++i) {
    Ctx::Span sp2(c);
    std::string k, v;
    if (c.chance(1, 12)) {
      k = "statistic";
      v = c.pick({"count", "gauge", "max", "totalAmount", "percentile", "totalTime", "duration"});
    } else {
      k = text(c, key_forbidden, 1, 12);
      v = text(c, val_forbidden, 1, 12);
      if (i == 0 && longer > 1) lengthen(c, longer == 2 ? &k : &v);
    }
    r.tags.emplace_back(k, v);
  }
  return r;
}

// a decimal rendering of d that strtod reads back as exactly d
inline std::string number_text(Ctx& c, double d) {
  char b[400];
  switch (c.weighted({4, 3, 1, 1, 1})) {
    case 0: {
      for (int p = 1; p <= 17; ++p) {
        snprintf(b, sizeof b, "%.*g", p, d);
        if (strtod(b, nullptr) == d) break;
      }
      break;
    }
    case 1:
      snprintf(b, sizeof b, "%.17g", d);
      break;
    case 2:
      snprintf(b, sizeof b, "%.17e", d);
      break;
    case 3:
      snprintf(b, sizeof b, std::signbit(d) ? "%.17g" : "+%.17g", d);
      break;
    case 4:
      snprintf(b, sizeof b, " %.17g", d);
      break;
  }
  return b;
}

}  // namespace gen
