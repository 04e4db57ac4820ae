// Decoders of their own for what the program encodes: gzip and SMILE.
#pragma once
#include "engine.h"

#include <cstring>
#include <map>
#include <set>
#include <string>
#include <vector>
#include <zlib.h>

namespace vf {

inline std::string inflate_all(Ctx& c, const uint8_t* p, size_t n) {
  z_stream z{};
  c.check(inflateInit2(&z, 15 + 16) == Z_OK, "inflateInit2");
  z.next_in = const_cast<Bytef*>(p);
  z.avail_in = static_cast<uInt>(n);
  std::string out;
  std::vector<char> buf(1 << 16);
  int rc;
  do {
    z.next_out = reinterpret_cast<Bytef*>(buf.data());
    z.avail_out = static_cast<uInt>(buf.size());
    rc = inflate(&z, Z_NO_FLUSH);
    out.append(buf.data(), buf.size() - z.avail_out);
  } while (rc == Z_OK && (z.avail_in > 0 || z.avail_out == 0));
  auto left = z.avail_in;
  inflateEnd(&z);
  c.check_f(rc == Z_STREAM_END, [&] { return "the compressed data is not a whole gzip stream: " + std::to_string(rc); });
  c.check(left == 0, "bytes after the end of the gzip stream");
  return out;
}

struct SmileVal {
  char kind;  // i s d
  uint64_t i = 0;
  std::string s;
  double d = 0;
};

struct SmileDec {
  Ctx& c;
  const std::string& b;
  size_t p = 0;
  uint8_t u8() {
    c.check(p < b.size(), "the payload ends early");
    return static_cast<uint8_t>(b[p++]);
  }
  bool next(SmileVal* out) {
    auto t = u8();
    if (t == 0xF9) return false;
    if (t >= 0xC0 && t <= 0xDF) {  // small int, zigzag
      auto z = t - 0xC0u;
      out->kind = 'i';
      out->i = (z >> 1) ^ (~(z & 1) + 1);
    } else if (t == 0x24) {
      uint64_t z = 0;
      for (int k = 0;; ++k) {
        c.check(k < 5, "an integer of more than 5 bytes");
        auto x = u8();
        if (x & 0x80) {
          c.check((x & 0x40) == 0, "the last byte of an integer has 6 bits");
          z = (z << 6) | (x & 0x3F);
          break;
        }
        z = (z << 7) | x;
      }
      out->kind = 'i';
      out->i = (z >> 1) ^ (~(z & 1) + 1);
    } else if (t == 0x29) {
      uint64_t l = 0;
      for (int k = 0; k < 10; ++k) {
        auto x = u8();
        c.check((x & 0x80) == 0, "a byte of a double has 7 bits");
        l = k == 0 ? x : (l << 7) | x;
      }
      out->kind = 'd';
      memcpy(&out->d, &l, 8);
    } else if (t == 0x20) {
      out->kind = 's';
      out->s.clear();
    } else if (t >= 0x40 && t <= 0x7F) {
      out->kind = 's';
      auto n = static_cast<size_t>(t - 0x40 + 1);
      c.check(p + n <= b.size(), "the payload ends inside a string");
      out->s = b.substr(p, n);
      p += n;
    } else if (t == 0xE0) {
      auto e = b.find('\xFC', p);
      c.check(e != std::string::npos, "a long string without an end");
      out->kind = 's';
      out->s = b.substr(p, e - p);
      p = e + 1;
    } else {
      c.fail("unknown token " + std::to_string(t));
    }
    return true;
  }
};

// a measurement as it was sent; the tags with the name
struct Sent {
  int op;
  std::multimap<std::string, std::string> tags;
  double value;
  std::string id() const {  // name|key=value...
    std::string s;
    for (auto& t : tags)
      if (t.first == "name") s = t.second;
    for (auto& t : tags)
      if (t.first != "name") s += "|" + t.first + "=" + t.second;
    return s;
  }
};

inline std::vector<Sent> decode_payload(Ctx& c, const std::string& body, size_t* nstrings = nullptr) {
  auto raw = inflate_all(c, reinterpret_cast<const uint8_t*>(body.data()), body.size());
  c.check(raw.size() >= 5 && raw.compare(0, 3, ":)\n") == 0, "the payload has no SMILE header");
  c.check((static_cast<uint8_t>(raw[3]) & 0x02) == 0, "the payload announces shared strings");
  c.check(static_cast<uint8_t>(raw[4]) == 0xF8, "the payload is not an array");
  SmileDec d{c, raw, 5};
  SmileVal v;
  auto need = [&](char kind) -> SmileVal& {
    c.check(d.next(&v), "the array ends early");
    c.check_f(v.kind == kind, [&] { return std::string("expected a value of kind ") + kind + ", found " + v.kind; });
    return v;
  };
  auto n = need('i').i;
  c.check(n < raw.size(), "implausible number of strings");
  std::vector<std::string> table;
  std::set<std::string> distinct;
  for (uint64_t i = 0; i < n; ++i) {
    table.push_back(need('s').s);
    c.check_f(distinct.insert(table.back()).second, [&] { return "string twice in the table: " + quote(table.back()); });
  }
  auto str = [&]() -> const std::string& {
    auto i = need('i').i;
    c.check_f(i < table.size(), [&] { return "index " + std::to_string(i) + " is not in the string table"; });
    return table[i];
  };
  std::vector<Sent> p;
  while (d.next(&v)) {
    c.check(v.kind == 'i', "a measurement starts with its number of tags");
    auto nt = v.i;
    c.check(nt <= raw.size(), "implausible number of tags");
    std::multimap<std::string, std::string> tags;
    for (uint64_t i = 0; i < nt; ++i) {
      auto k = str();
      auto val = str();
      tags.emplace(k, val);
    }
    c.check(tags.count("name") == 1, "a measurement without exactly one name");
    auto op = need('i').i;
    p.push_back({static_cast<int>(op), tags, need('d').d});
  }
  c.check_f(d.p == raw.size(), [&] { return std::to_string(raw.size() - d.p) + " bytes after the end of the array"; });
  if (nstrings) *nstrings = table.size();
  return p;
}

}  // namespace vf
