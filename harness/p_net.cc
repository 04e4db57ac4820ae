// Publishing: payloads, batches, delivery, accounting, the HTTP client, common tags.
#include "gen.h"
#include "httpd.h"
#include "ids.h"
#include "regtools.h"
#include "smile_dec.h"
#include "vclock.h"

#include "spectator/http_client.h"
#include "spectator/publisher.h"
#include "spectator/strings.h"

#include <deque>
#include <rapidjson/stringbuffer.h>
#include <rapidjson/writer.h>
#include <time.h>

// the pauses between attempts take no time
namespace {
std::atomic<bool> g_no_sleep{false};
std::mutex g_sleeps_m;
std::vector<int64_t> g_sleeps;
}  // namespace
extern "C" int nanosleep(const timespec* t, timespec* rem) {
  auto ns = t->tv_sec * 1000000000LL + t->tv_nsec;
  if (g_no_sleep && ns >= 1000000) {
    std::lock_guard<std::mutex> g(g_sleeps_m);
    g_sleeps.push_back(ns);
    return 0;
  }
  int e = clock_nanosleep(CLOCK_REALTIME, 0, t, rem);
  if (e == 0) return 0;
  errno = e;
  return -1;
}

namespace {
using namespace vf;
using model::kSec;
using model::MId;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

HttpServer* g_http = nullptr;
void init() {
  quiet_logs();
  for (auto v : {"http_proxy", "HTTP_PROXY", "https_proxy", "all_proxy", "ALL_PROXY", "no_proxy"}) unsetenv(v);
  spectator::HttpClient::GlobalInit();
  g_http = new HttpServer();
  g_no_sleep = true;
}

struct TestPublisher : spectator::Publisher<spectator::Registry> {
  using spectator::Publisher<spectator::Registry>::Publisher;
  using spectator::Publisher<spectator::Registry>::measurements_to_json;
  using spectator::Publisher<spectator::Registry>::handle_aggr_response;
  using spectator::Publisher<spectator::Registry>::send_metrics;
};

struct SwitchConfig : spectator::Config {
  bool on = true;
  [[nodiscard]] auto is_enabled() const -> bool override { return on; }
};

// ---------------------------------------------------------------------------
// what a payload says: "op|tags" in key order, and the value's bits
using Published = std::vector<std::pair<std::string, uint64_t>>;

uint64_t bits(double d) {
  uint64_t u;
  memcpy(&u, &d, 8);
  return u;
}

std::string pub_key(int op, const std::multimap<std::string, std::string>& tags) {
  std::string s = op == 0 ? "add" : op == 10 ? "max" : "op" + std::to_string(op);
  for (auto& t : tags) s += "|" + t.first + "=" + t.second;
  return s;
}

int op_of(const std::map<std::string, std::string>& tags) {
  auto it = tags.find("statistic");
  if (it == tags.end()) return 10;
  auto& s = it->second;
  return s == "count" || s == "totalAmount" || s == "totalTime" || s == "totalOfSquares" || s == "percentile" ? 0 : 10;
}

std::pair<std::string, uint64_t> expected_entry(const std::string& name, const std::map<std::string, std::string>& tags,
                                                const std::map<std::string, std::string>& common, double v) {
  std::multimap<std::string, std::string> all(tags.begin(), tags.end());
  all.insert(common.begin(), common.end());
  all.emplace("name", name);
  return {pub_key(op_of(tags), all), bits(v)};
}

Published decode(Ctx& c, const std::string& body, size_t* nstrings = nullptr) {
  Published p;
  for (auto& m : decode_payload(c, body, nstrings)) p.emplace_back(pub_key(m.op, m.tags), bits(m.value));
  return p;
}

std::string pub_diff(Published want, Published got) {
  std::sort(want.begin(), want.end());
  std::sort(got.begin(), got.end());
  if (want == got) return "";
  std::string out;
  size_t i = 0, j = 0;
  int n = 0;
  auto show = [](const std::pair<std::string, uint64_t>& x) {
    double d;
    memcpy(&d, &x.second, 8);
    return x.first + " = " + dstr(d) + "\n";
  };
  while ((i < want.size() || j < got.size()) && n < 8) {
    if (j == got.size() || (i < want.size() && want[i] < got[j])) {
      out += "  missing     " + show(want[i++]);
      ++n;
    } else if (i == want.size() || got[j] < want[i]) {
      out += "  unexpected  " + show(got[j++]);
      ++n;
    } else {
      ++i, ++j;
    }
  }
  return out;
}

// text that has no invalid characters most of the time, and is long at times
std::string word(Ctx& c, int64_t max = 16) {
  auto s = gen::text(c, "", 1, max);
  if (c.chance(1, 15)) {
    auto n = static_cast<size_t>(c.range(1, 90));
    while (s.size() < n) s += s;
    s.resize(n);
  }
  return s;
}

std::map<std::string, std::string> gen_common(Ctx& c, int64_t max = 8) {
  std::map<std::string, std::string> m;
  auto n = c.size(0, max);
  for (int64_t i = 0; i < n; ++i) m["c." + word(c, 8)] = word(c);
  return m;
}
std::map<std::string, std::string> cleaned(const std::map<std::string, std::string>& m) {
  std::map<std::string, std::string> o;
  for (auto& kv : m) o[model::clean(kv.first)] = model::clean(kv.second);
  return o;
}
// without two keys that become the same
bool clash(const std::map<std::string, std::string>& m) { return cleaned(m).size() != m.size(); }

double any_double(Ctx& c) {
  switch (c.weighted({6, 1, 1})) {
    case 0:
      return c.number(true);
    case 1: {
      auto u = c.draw(0);
      double d;
      memcpy(&d, &u, 8);
      return std::isnan(d) ? 1.5 : d;
    }
    default:
      return static_cast<double>(c.range(-20, 20));
  }
}

// ---------------------------------------------------------------------------
Reg c16{{"C16",
         "a case is one or more lists of measurements (ids with up to 14 tags, arbitrary bytes, long strings, every statistic, any finite "
         "value; at times thousands or tens of thousands of them, so that string indexes need 1 to 17 bits) and common tags, turned into payloads by one reused buffer. "
         "Oracle: an independent gunzip and SMILE decoder finds a table of distinct strings and exactly the measurements, each with its own and the "
         "common tags, its name, operation and value. Non-trivial: at least two measurements that share strings, or common tags.",
         16000, 64000,
         [](Ctx& c) {
           vclock_set(kStart);
           auto common = gen_common(c);
           if (clash(common)) throw Discard{};
           auto cfg = config();
           cfg->common_tags = common;
           spectator::Registry r(std::move(cfg), null_logger());
           TestPublisher p(&r);
           spectator::SmilePayload payload;
           auto rounds = c.range(1, 3);
           for (int64_t round = 0; round < rounds; ++round) {
             Ctx::Span sp(c);
             std::vector<spectator::Measurement> ms;
             std::deque<spectator::Id> keep;
             Published want;
             int64_t n = c.size(0, 12);
             bool many = c.chance(1, 60);
             if (many) {
               n = c.range(20, 4200);
               c.label("many measurements");
             }
             bool huge = !many && round == 0 && c.chance(1, 1200);
             if (huge) n = c.chance(1, 3) ? c.range(32700, 33500) : c.range(16350, 17000);
             std::vector<MId> ids;
             for (int64_t i = 0; i < n; ++i) {
               Ctx::Span sp2(c);
               MId id;
               if (huge) {
                 id.name = "h" + std::to_string(i);
                 id.tags["hk"] = "w" + std::to_string(i);
               } else if (many) {
                 id.name = "n" + std::to_string(i);
                 if (i % 3 == 0) id.tags["statistic"] = "count";
                 if (i % 5 == 0) id.tags["k" + std::to_string(i % 97)] = "v" + std::to_string(i / 2);
               } else if (!ids.empty() && c.chance(1, 3)) {
                 id = ids[c.draw(ids.size())];
                 id.tags["statistic"] = c.pick({"count", "gauge", "max", "totalAmount", "totalTime", "totalOfSquares", "percentile",
                                                "duration", "activeTasks", "other", "Count"});
               } else {
                 gen::RawId raw;
                 raw.name = word(c, 30);
                 auto nt = c.size(0, 14);
                 for (int64_t k = 0; k < nt; ++k) raw.tags.emplace_back(word(c, 8), word(c));
                 if (c.flip())
                   raw.tags.emplace_back("statistic", c.pick({"count", "gauge", "max", "totalAmount", "totalTime", "totalOfSquares",
                                                              "percentile", "duration"}));
                 id = raw.id();
                 for (auto& t : cleaned(common)) id.tags.erase(t.first);
                 id.tags.erase("name");
               }
               ids.push_back(id);
               double v = many || huge ? static_cast<double>(i) : any_double(c);
               keep.push_back(id_of(id));
               ms.emplace_back(keep.back(), v);
               want.push_back(expected_entry(id.name, id.tags, cleaned(common), v));
             }
             if (c.chance(1, 8)) {  // any slice of a report can be a batch
               auto a = c.draw(ms.size() + 1), b = a + c.draw(ms.size() - a + 1);
               p.measurements_to_json(&payload, ms.begin() + a, ms.begin() + b);
               want = Published(want.begin() + a, want.begin() + b);
             } else {
               p.measurements_to_json(&payload, ms.begin(), ms.end());
             }
             auto res = payload.Result();
             size_t strings = 0;
             auto got = decode(c, std::string(reinterpret_cast<const char*>(res.data), res.size), &strings);
             c.trace([&](auto& os) {
               os << want.size() << " measurements, " << common.size() << " common tags, " << strings << " strings; first: "
                  << (want.empty() ? "" : want[0].first);
             });
             auto d = pub_diff(want, got);
             c.check_f(d.empty(), [&] { return "the payload differs from the report:\n" + d; });
             c.label_if(strings >= 64, "indexes of more than 6 bits");
             c.label_if(strings >= 4096, "indexes of more than 12 bits");
             c.label_if(strings > 32768, "indexes of more than 15 bits");
             c.label_if(strings > 65536, "indexes of more than 16 bits");
             c.nontrivial(want.size() >= 2 || (!want.empty() && !common.empty()));
           }
         },
         false, true, 8, 60, 40, 700, [] { quiet_logs(); },
         {"common tags have keys of their own", "no key of a meter is 'name'", "values are not NaN"}}};

// ---------------------------------------------------------------------------
// a registry with meters, and the model of it
struct Source {
  Model m;
  void step(Ctx& c, spectator::Registry& r, const std::vector<MId>& ids, size_t i) {
    auto& id = ids[i];
    auto sid = id_of(id);
    m.now = vnow();
    switch (i % 5) {
      case 0: {
        double d = static_cast<double>(c.range(1, 1000)) / 4;
        r.GetCounter(sid)->Add(d);
        m.counter(id, d);
        break;
      }
      case 1: {
        double d = c.number(true);
        r.GetGauge(sid)->Set(d);
        m.gauge(id, d, std::nullopt);
        break;
      }
      case 2: {
        auto ns = c.range(1, 100000);
        r.GetTimer(sid)->Record(absl::Nanoseconds(ns));
        m.timer(id, ns);
        break;
      }
      case 3: {
        double d = static_cast<double>(c.range(1, 1000));
        r.GetDistributionSummary(sid)->Record(d);
        m.dist(id, d);
        break;
      }
      default: {
        double d = c.number(true);
        r.GetMaxGauge(sid)->Set(d);
        m.max(id, d);
      }
    }
  }
};

// model reports carry "name|k=v|..." strings
MId parse_id_str(const std::string& s) {
  MId id;
  auto at = s.find('|');
  id.name = s.substr(0, at);
  while (at != std::string::npos) {
    auto nx = s.find('|', at + 1);
    auto t = s.substr(at + 1, nx == std::string::npos ? std::string::npos : nx - at - 1);
    auto eq = t.find('=');
    id.tags[t.substr(0, eq)] = t.substr(eq + 1);
    at = nx;
  }
  return id;
}

Published published(const model::Report& r, const std::map<std::string, std::string>& common) {
  Published p;
  for (auto& e : r) {
    auto id = parse_id_str(e.first);
    p.push_back(expected_entry(id.name, id.tags, common, e.second));
  }
  return p;
}
// compares with a tolerance: "add|..." keys and values
model::Report as_report(const Published& p) {
  model::Report r;
  for (auto& e : p) {
    double d;
    memcpy(&d, &e.second, 8);
    r.emplace_back(e.first, d);
  }
  return r;
}

struct Outcome {  // what the aggregator answers to a batch
  HttpRep rep;
  // accounting, when it is the final answer
  int64_t err = -1;  // errorCount for a validation answer, -1: by status
  std::string drop;  // tag of the dropped counter
};

std::string json_text(Ctx& c) {
  std::string s;
  auto n = c.size(0, 10);
  for (int64_t i = 0; i < n; ++i) s += c.chance(1, 40) ? c.pick(std::vector<char>{0, 1, '\n', '\t', 127, '\xc3'}) : static_cast<char>(c.range(0x20, 0x7e));
  return s;
}
std::string json_quote(const std::string& s) {
  std::string o = "\"";
  for (auto ch : s) {
    if (static_cast<unsigned char>(ch) < 0x20) {
      char buf[8];
      snprintf(buf, sizeof buf, "\\u%04x", static_cast<unsigned>(ch));
      o += buf;
      continue;
    }
    if (ch == '"' || ch == '\\') o += '\\';
    o += ch;
  }
  return o + "\"";
}
std::string json_any(Ctx& c, int depth = 0) {
  switch (c.weighted({3, 2, 2, 1, 1, depth < 3 ? 1u : 0u, depth < 3 ? 1u : 0u})) {
    case 0:
      return std::to_string(c.range(-5, 5000));
    case 1:
      return json_quote(json_text(c));
    case 2:
      return c.pick({"null", "true", "false", "1.5", "-1", "4294967295", "4294967296", "1e2", "18446744073709551615", "99999999999999999999"});
    case 3:
      return "{}";
    case 4:
      return "[]";
    case 5: {
      std::string s = "[";
      auto n = c.range(1, 3);
      for (int64_t i = 0; i < n; ++i) s += (i ? "," : "") + json_any(c, depth + 1);
      return s + "]";
    }
    default: {
      std::string s = "{";
      auto n = c.range(1, 3);
      for (int64_t i = 0; i < n; ++i) s += (i ? "," : "") + json_quote("k" + json_text(c)) + ":" + json_any(c, depth + 1);
      return s + "}";
    }
  }
}

// an answer, what it means for a batch of n and which messages it has
struct Answer {
  int status;
  std::string body;
  bool judged = true;        // the meaning is known by construction
  size_t sent = 0, validation = 0, http_error = 0, other = 0;
  std::set<std::string> messages;
};

Answer gen_answer(Ctx& c, size_t n) {
  Answer a;
  switch (c.weighted({3, 5, 2, 1})) {
    case 0:
      a.status = 200;
      a.sent = n;
      a.body = c.flip() ? "" : json_any(c);
      return a;
    case 1:
      a.status = c.weighted({2, 3, 1, 1}) == 0 ? 202
                                              : static_cast<int>(c.weighted({3, 1}) == 0 ? c.draw(2) ? 400 : 413 : c.range(201, 499));
      break;
    case 2:
      a.status = c.flip() ? 500 : static_cast<int>(c.range(500, 599));
      a.http_error = n;
      a.body = c.flip() ? json_any(c) : "";
      return a;
    default:
      a.status = -1;
      a.other = n;
      return a;
  }
  // 201..499: the body decides
  auto k = c.weighted({6, 2, 2, 2, 1, 1});
  if (k == 0) {  // the documented form
    uint64_t e = c.weighted({3, 1, 1}) == 0 ? c.draw(n + 1) : c.flip() ? n : 0;
    std::vector<std::string> members{"\"errorCount\":" + std::to_string(e)};
    if (c.chance(2, 3)) {
      std::string m = "\"message\":";
      if (c.chance(4, 5)) {
        m += "[";
        auto k2 = c.range(0, 4);
        for (int64_t i = 0; i < k2; ++i) {
          if (i) m += ",";
          if (c.chance(1, 5)) {
            m += c.pick({"1", "null", "{}", "[\"x\"]"});
          } else {
            auto s = json_text(c);
            a.messages.insert(s);
            m += json_quote(s);
          }
        }
        if (c.chance(1, 12)) {  // one for most of the measurements
          auto many = c.range(5, 1500);
          auto text = json_text(c);
          for (int64_t i = 0; i < many; ++i) {
            auto s = text + std::to_string(i);
            if (m.back() != '[') m += ",";
            a.messages.insert(s);
            m += json_quote(s);
          }
        }
        m += "]";
      } else {
        m += c.pick({"\"text\"", "1", "null", "{\"a\":[\"b\"]}"});
      }
      members.push_back(m);
    }
    if (c.flip()) members.push_back("\"type\":" + json_any(c));
    if (c.flip()) std::reverse(members.begin(), members.end());
    a.body = "{";
    for (size_t i = 0; i < members.size(); ++i) a.body += (i ? ", " : "") + members[i];
    a.body += "}";
    a.validation = e;
    a.sent = n - e;
  } else if (k == 1) {  // JSON of another shape
    do {
      a.body = json_any(c);
    } while (false);
    a.other = n;
  } else if (k == 2) {  // the member is there, but is no count, or an impossible one
    a.body = std::string("{\"errorCount\":") +
             (c.flip() ? std::string(c.pick({"-1", "null", "\"1\"", "1.5", "true", "[]", "{}", "18446744073709551615"}))
                       : std::to_string(n + 1 + c.draw(1000000))) +
             ",\"message\":[\"m\"]}";
    a.other = n;
  } else if (k == 3) {  // no JSON
    a.body = c.pick({"", "Bad Request", "{\"errorCount\":", "{\"errorCount\":1", "<html>", "{errorCount:1}", "\"", "{\"errorCount\":1}}", "[1,"});
    a.other = n;
  } else if (k == 4) {  // deeply nested
    auto depth = static_cast<size_t>(c.range(1, 300000));
    a.body = std::string(depth, c.flip() ? '[' : '{');
    if (c.flip() && a.body[0] == '[') a.body += std::string(depth, ']');
    a.other = n;
  } else {  // any bytes
    auto len = c.size(0, 40);
    for (int64_t i = 0; i < len; ++i) a.body += static_cast<char>(c.chance(1, 3) ? "{}[]\":,0e"[c.draw(9)] : c.draw(256));
    a.judged = false;
  }
  return a;
}

struct Account {
  double sent = 0, validation = 0, http_error = 0, other = 0;
};
Account account(Ctx& c, spectator::Registry& r) {
  Account a;
  for (auto k : r.Counters()) {
    auto id = parse_id_str(id_str(k->MeterId()));
    if (id.name != "spectator.measurements") continue;
    c.check_f(id.tags["owner"] == "spectatord", [&] { return "wrong owner: " + id.str(); });
    if (id.tags["id"] == "sent" && id.tags.size() == 2) {
      a.sent = k->Count();
    } else if (id.tags["id"] == "dropped" && id.tags.size() == 3) {
      auto e = id.tags["error"];
      (e == "validation" ? a.validation : e == "http-error" ? a.http_error : a.other) = k->Count();
      c.check_f(e == "validation" || e == "http-error" || e == "other", [&] { return "unknown error: " + id.str(); });
    } else {
      c.fail("unexpected counter " + id.str());
    }
  }
  return a;
}

Reg c18{{"C18",
         "a case is a publisher with status metrics on (or off) and a history of aggregator answers for batches of 1 to 10000 measurements: any status, the documented "
         "JSON with any error count and messages, JSON of other shapes and types, impossible counts, truncated or no JSON, nesting up to 300000 deep, arbitrary bytes; one in twelve comes over HTTP, after up to two attempts that failed with other bodies. "
         "Oracle: for every answer sent + dropped is the size of the batch, the right counters grow by exactly the right amounts (by construction of the answer), "
         "and the messages are exactly the strings listed. Non-trivial: an answer of status 201 to 499.",
         15000, 120000,
         [](Ctx& c) {
           vclock_set(kStart);
           bool status = !c.chance(1, 6);
           auto cfg = config(status);
           cfg->batch_size = 100000;
           cfg->read_timeout = absl::Seconds(60);
           cfg->connect_timeout = absl::Seconds(60);
           cfg->uri = "http://127.0.0.1:" + std::to_string(g_http->port()) + "/";
           spectator::Registry r(std::move(cfg), null_logger());
           TestPublisher p(&r);
           bool wired = false;
           auto steps = c.range(1, 8);
           for (int64_t i = 0; i < steps; ++i) {
             Ctx::Span sp(c);
             auto n = static_cast<size_t>(c.chance(1, 5) ? c.range(1, 10000) : c.size(1, 30));
             // a real interval, whose answer comes over the wire, perhaps at a second or third attempt
             bool wire = c.chance(1, 12);
             if (wire) {
               r.Measurements();
               auto own = r.Measurements().size();  // of the registry, with every report
               n = static_cast<size_t>(c.range(1, 30));
               for (size_t k = 0; k < n; ++k) r.GetCounter("m" + std::to_string(k))->Increment();
               n += own;
               wired = true;
             }
             auto a = gen_answer(c, n);
             wire = wire && a.status != 204 && a.status != 304 && a.status != 407 && a.status != 417;
             c.trace([&](auto& os) {
               os << (wire ? "interval" : "batch") << " of " << n << ", answer " << a.status << " " << quote(a.body.substr(0, 200));
             });
             spectator::HttpResponse resp{a.status, a.body, {}};
             tsl::hopscotch_set<std::string> msgs;
             auto before = account(c, r);
             std::pair<size_t, size_t> res;
             if (wire) {
               bool retried = a.status == -1 || a.status == 429 || a.status / 100 == 5;
               auto failures = retried ? 2 : c.draw(3);
               std::vector<HttpRep> reps;
               for (uint64_t k = 0; k <= failures; ++k) {
                 HttpRep rep;
                 if (k < failures ? c.chance(1, 5) : a.status == -1) {
                   rep.kind = HttpRep::Close;
                 } else if (k < failures) {
                   rep.status = c.pick(std::vector<int>{429, 500, 502, 503, 504});
                   rep.body = c.pick({"", "busy", "{\"errorCount\":1,\"message\":[\"x\"]}", "[", "{}"});
                   rep.chunked = c.chance(1, 4);
                   c.trace([&](auto& os) { os << "  attempt " << k << ": " << rep.status << " " << rep.body; });
                 } else {
                   rep.status = a.status;
                   rep.body = a.body;
                   rep.chunked = c.chance(1, 4);
                 }
                 reps.push_back(rep);
               }
               std::atomic<size_t> at{0};
               g_http->start([&](const HttpReq&) { return reps[std::min<size_t>(at++, reps.size() - 1)]; });
               p.send_metrics();
               g_http->start(nullptr);
               c.check_f(at == reps.size(), [&] {
                 return std::to_string(at) + " requests instead of " + std::to_string(reps.size());
               });
               // the report took what the counters had
               before = Account{};
               auto now = account(c, r);
               res = {static_cast<size_t>(now.sent), static_cast<size_t>(now.validation + now.http_error + now.other)};
               if (!status) res = {a.sent, n - a.sent};
               msgs.insert(a.messages.begin(), a.messages.end());
               c.label("over the wire");
             } else {
               res = p.handle_aggr_response(resp, n, &msgs);
             }
             auto after = account(c, r);
             c.nontrivial(a.status > 200 && a.status < 500);
             auto d = [&](const char* what, double want, double got) {
               c.check_f(want == got, [&] {
                 return "batch of " + std::to_string(n) + ", answer " + std::to_string(a.status) + " " + quote(a.body.substr(0, 200)) + ": " +
                        what + " expected " + dstr(want) + ", is " + dstr(got);
               });
             };
             d("sent + dropped", static_cast<double>(n), static_cast<double>(res.first + res.second));
             double ds = after.sent - before.sent, dv = after.validation - before.validation, dh = after.http_error - before.http_error,
                    dot = after.other - before.other;
             if (status) {
               d("all counters", static_cast<double>(n), ds + dv + dh + dot);
               d("counter of sent and returned sent", static_cast<double>(res.first), ds);
             } else {
               d("counters without status metrics", 0, ds + dv + dh + dot);
               c.check(wired || r.Counters().empty(), "a status counter exists although status metrics are off");
             }
             if (a.judged) {
               d("sent", static_cast<double>(a.sent), static_cast<double>(res.first));
               if (status) {
                 d("validation", static_cast<double>(a.validation), dv);
                 d("http-error", static_cast<double>(a.http_error), dh);
                 d("other", static_cast<double>(a.other), dot);
               }
               std::set<std::string> got(msgs.begin(), msgs.end());
               c.check_f(got == a.messages, [&] {
                 return "messages of " + quote(a.body) + ": " + std::to_string(got.size()) + " instead of " + std::to_string(a.messages.size());
               });
               c.label(a.validation ? "validation errors" : a.other ? "other" : a.http_error ? "http error" : "sent");
             } else {
               d("no http error", 0, dh);
               c.label("arbitrary body");
             }
             if (c.chance(1, 6)) {  // idle counters are expired and come back
               vclock_advance(3600 * kSec);
               static_cast<TestRegistry&>(r).remove_expired_meters();
             }
           }
         },
         false, true, 8, 60, 40, 700, init, {"error counts appear once in the JSON"}}};

// ---------------------------------------------------------------------------
// one interval of publishing over HTTP
struct Plan {  // what the server does with a batch, by attempt
  std::vector<HttpRep> reps;
};

Reg c17{{"C17",
         "a case is a registry with up to 60 meters (sometimes over 10000), a batch size (configured, zero or negative), 1 to 8 sender threads, and up to 4 publish intervals against a real "
         "HTTP server that answers each attempt at each batch by a script (2xx, 4xx with error counts, 429, 5xx, closed connections); publishing is disabled at times, or refused by the port. "
         "Oracle: the distinct bodies received partition the interval's report into batches of the right sizes, each is POSTed as gzip SMILE to the configured path as often as the answers "
         "demand and always unchanged, later intervals repeat nothing, the time of the last success and the sent and dropped counters follow the final answers. "
         "Non-trivial: an interval of at least two batches.",
         4900, 19600,
         [](Ctx& c) {
           vclock_set(kStart);
           g_hw_threads = static_cast<unsigned>(c.range(1, 9));
           auto cfg = std::make_unique<SwitchConfig>();
           auto* sw = cfg.get();
           bool huge = c.chance(1, 150);
           bool status = c.chance(1, 3);
           cfg->age_gauge_limit = 10;
           cfg->status_metrics_enabled = status;
           cfg->batch_size = huge ? (c.flip() ? 0 : 10000) : static_cast<int>(c.weighted({8, 1, 1}) == 0 ? c.range(1, 30) : c.range(-3, 0));
           cfg->read_timeout = absl::Seconds(60);
           cfg->connect_timeout = absl::Seconds(60);
           auto common = gen_common(c, 3);
           if (clash(common)) throw Discard{};
           cfg->common_tags = common;
           bool refused = c.chance(1, 12);
           std::string path = c.pick({"/api/v4/update", "/", "/x"});
           cfg->uri = "http://127.0.0.1:" + std::to_string(refused ? g_http->refused_port() : g_http->port()) + path;
           auto batch = cfg->batch_size > 0 ? static_cast<size_t>(cfg->batch_size) : 10000;
           TestRegistry r(std::move(cfg), null_logger());
           TestPublisher p(&r);
           g_hw_threads = 1;
           Source src;
           std::vector<MId> ids;
           auto n_ids = huge ? c.range(2501, 5100) : c.size(1, 60);
           for (int64_t i = 0; i < n_ids; ++i) {
             MId id;
             id.name = "m" + std::to_string(i);
             if (i % 2) id.tags["k" + std::to_string(i % 3)] = "v" + std::to_string(i % 7);
             ids.push_back(id);
           }
           auto intervals = c.range(1, huge ? 1 : 4);
           auto last = p.GetLastSuccessTime();
           for (int64_t round = 0; round < intervals; ++round) {
             Ctx::Span sp(c);
             vclock_advance(c.range(1, 3) * kSec);
             src.m.now = vnow();
             for (size_t i = 0; i < ids.size(); ++i)
               if (huge || c.chance(2, 3)) src.step(c, r, ids, i);
             sw->on = !c.chance(1, 8);
             // the script: what the k-th attempt at the j-th new body gets
             std::vector<Plan> plans;
             auto np = c.range(1, 4);
             for (int64_t i = 0; i < np; ++i) {
               Plan pl;
               for (int a = 0; a < 3; ++a) {
                 HttpRep rep;
                 switch (c.weighted({6, 2, 2, 1, 1, 1})) {
                   case 0:
                     rep.status = 200;
                     break;
                   case 1:
                     rep.status = c.pick(std::vector<int>{500, 502, 503, 504, 429, 599});
                     if (c.flip()) rep.body = c.pick({"busy", "{\"errorCount\":1}", "["});
                     break;
                   case 2:
                     rep.status = c.pick(std::vector<int>{400, 202, 413, 404});
                     rep.body = "{\"errorCount\":" + std::to_string(c.draw(4)) + ",\"message\":[\"bad\"]}";
                     break;
                   case 3:
                     rep.kind = HttpRep::Close;
                     break;
                   case 4:
                     rep.status = 400;
                     rep.body = "no json";
                     break;
                   default:
                     rep.status = 301;
                     rep.body = "{}";
                 }
                 pl.reps.push_back(rep);
               }
               plans.push_back(pl);
             }
             struct Seen {
               size_t plan, attempts = 0;
             };
             std::map<std::string, Seen> seen;
             g_http->start([&](const HttpReq& q) {
               auto it = seen.emplace(q.body, Seen{seen.size() % plans.size()}).first;
               auto& s = it->second;
               auto a = std::min<size_t>(s.attempts++, 2);
               return plans[s.plan].reps[a];
             });
             auto before = account(c, r);
             p.send_metrics();
             auto reqs = g_http->requests();
             auto report = src.m.measure();
             g_http->start(nullptr);
             c.trace([&](auto& os) {
               os << "interval " << round << ": " << report.size() << " measurements, batch size " << batch << ", " << reqs.size()
                  << " requests, " << seen.size() << " bodies" << (sw->on ? "" : ", disabled") << (refused ? ", refused" : "");
             });
             if (!sw->on || refused) {
               c.check(reqs.empty(), "something was sent although publishing is disabled");
               c.check(p.GetLastSuccessTime() == last, "the time of the last success changed without one");
               if (status && refused && sw->on) {
                 auto after = account(c, r);
                 c.check_f(after.sent == before.sent && after.http_error == before.http_error && after.validation == before.validation,
                           [] { return "counters grew although nothing was delivered"; });
                 if (round == 0)
                   c.check_f(after.other - before.other == static_cast<double>(report.size()), [&] {
                     return "dropped grew by " + dstr(after.other - before.other) + " instead of " + std::to_string(report.size());
                   });
               }
               c.label(refused ? "refused" : "disabled");
               continue;
             }
             // every request
             for (auto& q : reqs) {
               c.check_f(q.method == "POST" && q.target == path, [&] { return "sent " + q.method + " " + q.target; });
               c.check(q.complete, "an incomplete body");
               auto ct = q.header("Content-Type");
               c.check(ct && *ct == "application/x-jackson-smile" && q.count("Content-Type") == 1, "wrong content type");
               auto ce = q.header("Content-Encoding");
               c.check(ce && *ce == "gzip" && q.count("Content-Encoding") == 1, "wrong content encoding");
             }
             // the batches
             Published all;
             size_t full = 0, total = 0;
             bool ok2xx = false;
             Account want;
             for (auto& kv : seen) {
               auto b = decode(c, kv.first);
               c.check_f(!b.empty() && b.size() <= batch, [&] {
                 return "a batch of " + std::to_string(b.size()) + " measurements, batch size " + std::to_string(batch);
               });
               full += b.size() == batch;
               total += b.size();
               all.insert(all.end(), b.begin(), b.end());
               // attempts: as many as the answers demand
               auto& reps = plans[kv.second.plan].reps;
               size_t a = 0;
               for (; a < 2; ++a) {
                 bool again = reps[a].kind == HttpRep::Close || reps[a].status == 429 || reps[a].status / 100 == 5;
                 if (!again) break;
               }
               c.check_f(kv.second.attempts == a + 1, [&] {
                 return "a batch was sent " + std::to_string(kv.second.attempts) + " times, expected " + std::to_string(a + 1);
               });
               auto& fin = reps[a];
               auto n = static_cast<double>(b.size());
               if (fin.kind == HttpRep::Close) {
                 want.other += n;
               } else if (fin.status == 200) {
                 want.sent += n;
               } else if (fin.status >= 500) {
                 want.http_error += n;
               } else {
                 auto at = fin.body.find("errorCount\":");
                 double e = at == std::string::npos ? n + 1 : atof(fin.body.c_str() + at + 12);
                 if (e <= n) {
                   want.validation += e;
                   want.sent += n - e;
                 } else {
                   want.other += n;
                 }
               }
               ok2xx = ok2xx || (fin.kind == HttpRep::Answer && fin.status / 100 == 2);
             }
             auto want_batches = (total + batch - 1) / batch;
             c.check_f(seen.size() == want_batches, [&] {
               return std::to_string(total) + " measurements in " + std::to_string(seen.size()) + " batches of at most " + std::to_string(batch);
             });
             // the status metrics of the daemon itself come on top
             Published mine;
             for (auto& e : all)
               if (e.first.find("|name=spectator.") == std::string::npos && e.first.find("|name=ipc.client.call") == std::string::npos)
                 mine.push_back(e);
             if (!status) c.check(mine.size() == all.size(), "status metrics are published although they are off");
             auto d = model::diff(as_report(published(report, cleaned(common))), as_report(mine));
             c.check_f(d.empty(), [&] { return "the interval's requests differ from its report:\n" + d; });
             if (ok2xx) last = vnow();
             c.check_f(p.GetLastSuccessTime() == last, [&] {
               return "time of the last success is " + std::to_string(p.GetLastSuccessTime() - kStart) + ", expected " + std::to_string(last - kStart);
             });
             if (status) {
               auto after = account(c, r);
               // the counters themselves are part of the report, which takes and resets them
               auto eq = [&](const char* w, double x, double y) {
                 c.check_f(x == y, [&] { return std::string("counter ") + w + ": expected " + dstr(x) + ", is " + dstr(y); });
               };
               eq("sent", want.sent, after.sent);
               eq("validation", want.validation, after.validation);
               eq("http-error", want.http_error, after.http_error);
               eq("other", want.other, after.other);
               c.label("status metrics");
             }
             c.nontrivial(seen.size() >= 2);
             c.label_if(seen.size() >= 2, "several batches");
             c.label_if(huge, "default batch size filled");
           }
         },
         false, false, 8, 60, 60, 700, init, {"the transport is the loopback interface; pauses between attempts take no time"}}};


// ---------------------------------------------------------------------------
template <typename R>
auto common_tags(const R& r, int) -> decltype(r.GetCommonTags()) {
  return r.GetCommonTags();
}
template <typename R>
auto common_tags(const R& r, long) -> std::map<std::string, std::string> {
  return r.GetConfig().common_tags;
}

Reg c23{{"C23",
         "a case is a publisher with common tags from the configuration (up to 8, arbitrary bytes) and a history of updates and removals of common tags, of known and unknown keys, and publish intervals "
         "of several batches. Oracle: every measurement of every request carries exactly the common tags that are in force when its interval starts (a map), besides its own, and GetCommonTags() "
         "reads back the map. Non-trivial: an interval after a change that had an effect.",
         15000, 60000,
         [](Ctx& c) {
           vclock_set(kStart);
           auto cfg = std::make_unique<SwitchConfig>();
           cfg->status_metrics_enabled = false;
           cfg->age_gauge_limit = 10;
           cfg->batch_size = static_cast<int>(c.range(1, 4));
           cfg->read_timeout = absl::Seconds(60);
           cfg->connect_timeout = absl::Seconds(60);
           cfg->uri = "http://127.0.0.1:" + std::to_string(g_http->port()) + "/";
           auto tags = gen_common(c);
           if (clash(tags)) throw Discard{};
           cfg->common_tags = tags;
           TestRegistry r(std::move(cfg), null_logger());
           TestPublisher p(&r);
           std::vector<std::string> keys{"mantisJobId", "mantisUser", "c.a", "c.b/"};
           for (auto& t : tags) keys.push_back(t.first);
           Model m;
           bool changed = false, used = false;
           g_http->start(nullptr);
           auto steps = c.range(1, 14);
           for (int64_t i = 0; i < steps; ++i) {
             Ctx::Span sp(c);
             m.now = vnow();
             switch (c.weighted({3, 3, 2})) {
               case 0: {  // an interval
                 auto n = c.range(1, 6);
                 for (int64_t k = 0; k < n; ++k) {
                   MId id;
                   id.name = "m" + std::to_string(k);
                   if (k % 2) id.tags["own"] = "x";
                   r.GetCounter(id_of(id))->Add(1.0 + static_cast<double>(k));
                   m.counter(id, 1.0 + static_cast<double>(k));
                 }
                 g_http->start([](const HttpReq&) { return HttpRep{}; });
                 p.send_metrics();
                 Published got;
                 for (auto& q : g_http->requests()) {
                   auto b = decode(c, q.body);
                   got.insert(got.end(), b.begin(), b.end());
                 }
                 auto want = published(m.measure(), cleaned(tags));
                 c.trace([&](auto& os) {
                   os << "interval of " << want.size() << " measurements with";
                   for (auto& t : tags) os << " " << quote(t.first) << "=" << quote(t.second);
                 });
                 auto d = pub_diff(want, got);
                 c.check_f(d.empty(), [&] { return "published with the wrong tags:\n" + d; });
                 used = used || changed;
                 break;
               }
               case 1: {
                 auto k = c.chance(1, 8) ? "c." + word(c, 6) : c.pick(keys);
                 auto v = word(c);
                 auto t2 = tags;
                 t2[k] = v;
                 if (clash(t2)) break;
                 c.trace([&](auto& os) { os << "update " << quote(k) << "=" << quote(v); });
                 changed = changed || t2 != tags;
                 r.UpdateCommonTag(k, v);
                 tags = t2;
                 break;
               }
               default: {
                 auto k = c.pick(keys);
                 c.trace([&](auto& os) { os << "erase " << quote(k); });
                 changed = changed || tags.count(k) > 0;
                 r.EraseCommonTag(k);
                 tags.erase(k);
               }
             }
             auto now = common_tags(r, 0);
             c.check_f(std::map<std::string, std::string>(now.begin(), now.end()) == tags,
                       [&] { return "GetCommonTags() has " + std::to_string(now.size()) + " tags that differ from the " + std::to_string(tags.size()) + " expected"; });
           }
           c.nontrivial(used);
         },
         false, true, 8, 60, 40, 700, init, {"common tags have keys of their own, also after invalid characters are replaced"}}};

// ---------------------------------------------------------------------------
struct Url {
  std::string text, target, path;
};
Url gen_url(Ctx& c, int port) {
  Url u;
  u.text = "http://127.0.0.1:" + std::to_string(port);
  std::string path, query;
  if (c.chance(5, 6)) {
    path = "/";
    auto segs = c.size(0, 4);
    for (int64_t i = 0; i < segs; ++i) {
      if (i) path += "/";
      auto n = c.range(1, 6);
      for (int64_t k = 0; k < n; ++k) path += "abcXYZ0189-_~%"[c.draw(13)];
    }
    if (c.chance(1, 8)) path += "/";
  }
  if (c.chance(1, 3)) {
    query = "?";
    auto n = c.size(0, 8);
    for (int64_t k = 0; k < n; ++k) query += path.empty() ? "ab=&1:"[c.draw(6)] : "ab=&1:/?"[c.draw(8)];
  }
  u.text += path + query;
  u.target = (path.empty() ? "/" : path) + query;
  u.path = path.empty() ? "/" : path;
  return u;
}

Reg c19{{"C19",
         "a case is up to 4 requests (GET, PUT and POST through every overload, with own headers, bodies of up to 70000 arbitrary bytes or SMILE payloads, with and without compression) to a URL "
         "with any path and query, whose up to three attempts are answered by a script (any status from 200 to 999, headers, bodies, chunked; connections closed; refused; a server that never answers; "
         "answers that take up to 20 s of virtual time). Oracle: the requests received (method, target, headers, body) are exactly the documented attempts, the pauses between them are 200 and 400 ms, the returned status, "
         "body and headers are those of the last answer, and the ipc.client.call percentile timers contain exactly one record per attempt with its tags and duration. Non-trivial: more than one attempt.",
         3000, 25000,
         [](Ctx& c) {
           vclock_set(kStart);
           spectator::Registry r(config(false), null_logger());
           Model m;
           auto n_req = c.range(1, 4);
           for (int64_t q = 0; q < n_req; ++q) {
             Ctx::Span sp(c);
             bool refused = c.chance(1, 12), stall = !refused && c.chance(1, 400);
             spectator::HttpClientConfig hc{};
             hc.connect_timeout = stall ? absl::Milliseconds(400) : absl::Seconds(c.range(1, 3) * 20);
             hc.read_timeout = stall ? absl::Milliseconds(400) : absl::Seconds(c.range(1, 3) * 20);
             auto total_ns = absl::ToInt64Nanoseconds(hc.connect_timeout + hc.read_timeout);
             hc.compress = c.flip();
             hc.read_headers = c.flip();
             hc.read_body = c.flip();
             hc.status_metrics_enabled = c.chance(3, 4);
             spectator::HttpClient client(&r, hc);
             auto url = gen_url(c, refused ? g_http->refused_port() : g_http->port());
             // the script
             struct Step {
               HttpRep rep;
               int64_t takes = 0;  // virtual
               std::vector<std::pair<std::string, std::string>> headers;
             };
             std::vector<Step> steps(3);
             for (auto& s : steps) {
               Ctx::Span sp2(c);
               if (stall) {
                 s.rep.kind = HttpRep::Stall;
               } else if (c.chance(1, 8)) {
                 s.rep.kind = HttpRep::Close;
               } else {
                 switch (c.weighted({4, 4, 3, 1})) {
                   case 0:
                     s.rep.status = 200;
                     break;
                   case 1:
                     s.rep.status = c.pick(std::vector<int>{429, 500, 501, 502, 503, 504, 599});
                     break;
                   case 2:
                     s.rep.status = c.pick(std::vector<int>{201, 202, 301, 302, 400, 404, 408, 428, 430, 499, 600});
                     break;
                   default:
                     s.rep.status = static_cast<int>(c.range(205, 999));
                 }
                 if (s.rep.status == 304 || s.rep.status == 417 || s.rep.status == 407) s.rep.status = 400;
                 auto n = c.chance(1, 12) ? c.range(0, 70000) : c.size(0, 60);
                 uint64_t x = c.draw(256);
                 for (int64_t k = 0; k < n; ++k) s.rep.body += static_cast<char>(k < 24 ? c.draw(256) : (x = x * 37 + 11));
                 s.rep.chunked = c.chance(1, 4);
                 auto nh = c.size(0, 3);
                 for (int64_t k = 0; k < nh; ++k) {
                   std::string key = "X-" + std::string(1, static_cast<char>('A' + k)), val;
                   auto len = c.range(1, 12);
                   for (int64_t z = 0; z < len; ++z) val += static_cast<char>(z == 0 || z + 1 == len ? c.range(0x21, 0x7e) : c.range(0x20, 0x7e));
                   s.headers.emplace_back(key, val);
                   s.rep.headers.push_back(key + c.pick({": ", ":", ":  ", ": \t"}) + val + (c.chance(1, 5) ? " " : ""));
                 }
               }
               switch (c.weighted({4, 2, 1})) {
                 case 0:
                   s.takes = c.range(0, 3000000);
                   break;
                 case 1:
                   s.takes = c.range(0, 20 * kSec);
                   break;
                 default:
                   s.takes = total_ns + c.range(-2, 2);
               }
               if (refused) s.takes = 0;
             }
             // what is sent
             std::vector<std::pair<std::string, std::string>> own;
             std::vector<std::string> own_lines;
             auto kind = c.weighted({3, 1, 1, 1, 3, 2});  // post ptr, get, get headers, put, post string, post payload
             std::string method = kind == 1 || kind == 2 ? "GET" : kind == 3 ? "PUT" : "POST";
             if (kind == 2 || kind == 3) {
               auto nh = c.size(0, 3);
               for (int64_t k = 0; k < nh; ++k) {
                 own.emplace_back("X-Own-" + std::to_string(k), "v" + std::to_string(c.draw(100)));
                 own_lines.push_back(own.back().first + ": " + own.back().second);
               }
             }
             std::string body, ctype;
             spectator::SmilePayload payload;
             spectator::CompressedResult cres{};
             bool gz = false;
             if (kind == 0 || kind == 4 || kind == 5) {
               auto n = c.chance(1, 10) ? c.range(0, 70000) : c.size(0, 100);
               uint64_t x = c.draw(256);
               for (int64_t k = 0; k < n; ++k) body += static_cast<char>(k < 16 ? c.draw(256) : (x = x * 29 + 7) >> 3);
               ctype = c.pick({"application/json", "application/x-jackson-smile", "text/plain"});
               gz = kind == 5 || hc.compress;
             }
             auto line = "Content-Type: " + ctype;
             if (kind == 5) {
               payload.Init();
               auto n = c.range(0, 30);
               for (int64_t k = 0; k < n; ++k) payload.Append(static_cast<int>(c.range(0, 200)));
               cres = payload.Result();
               body.assign(reinterpret_cast<const char*>(cres.data), cres.size);
             }
             std::atomic<size_t> attempts{0};
             g_http->start([&](const HttpReq&) {
               auto a = std::min<size_t>(attempts++, 2);
               vclock_advance(steps[a].takes);
               return steps[a].rep;
             });
             {
               std::lock_guard<std::mutex> g(g_sleeps_m);
               g_sleeps.clear();
             }
             auto res = [&]() -> spectator::HttpResponse {
               switch (kind) {
                 case 0:
                   return client.Post(url.text, line.c_str(), body.data(), body.size());
                 case 1:
                   return client.Get(url.text);
                 case 2:
                   return client.Get(url.text, own_lines);
                 case 3:
                   return client.Put(url.text, own_lines);
                 case 4:
                   return client.Post(url.text, line.c_str(), body);
                 default:
                   return client.Post(url.text, line.c_str(), cres);
               }
             }();
             auto reqs = g_http->requests();
             g_http->start(nullptr);
             std::vector<int64_t> sleeps;
             {
               std::lock_guard<std::mutex> g(g_sleeps_m);
               sleeps = g_sleeps;
             }
             // what should have happened
             size_t a = 0;
             std::vector<int64_t> want_sleeps;
             MId base;
             base.name = "ipc.client.call";
             base.tags = {{"owner", "spectatord"}, {"ipc.endpoint", model::clean(url.path)}, {"http.method", method}};
             static const char* kAttempt[] = {"initial", "second", "third_up"};
             m.now = vnow();
             for (;; ++a) {
               auto& s = steps[a];
               bool transport = refused || s.rep.kind != HttpRep::Answer;
               bool again = a < 2 && (transport ? s.takes < total_ns : s.rep.status == 429 || s.rep.status / 100 == 5);
               auto id = base.with("ipc.attempt", kAttempt[a]).with("ipc.attempt.final", again ? "false" : "true");
               id = id.with("http.status", transport ? "-1" : std::to_string(s.rep.status));
               bool good = !transport && s.rep.status / 100 == 2;
               id = id.with("ipc.result", good ? "success" : "failure");
               id = id.with("ipc.status", good ? "success"
                                               : !transport ? "http_error"
                                                            : refused ? "connection_error" : stall ? "timeout" : "unknown");
               if (hc.status_metrics_enabled) {
                 m.timer(id, s.takes);
                 auto cl = std::min<int64_t>(std::max<int64_t>(s.takes, 1000000), 10 * kSec);
                 m.counter(id.stat("percentile").with("percentile", model::bucket_tag('T', cl)), 1);
               }
               if (!again) break;
               if (!transport) want_sleeps.push_back(200000000LL << a);
             }
             auto& fin = steps[a];
             c.trace([&](auto& os) {
               os << method << " " << url.text << ", body of " << body.size() << (gz ? " gzip" : "") << ":";
               for (size_t k = 0; k <= a; ++k)
                 os << " " << (refused ? "refused" : steps[k].rep.kind == HttpRep::Close ? "closed" : stall ? "stalled" : std::to_string(steps[k].rep.status).c_str())
                    << " after " << static_cast<double>(steps[k].takes) / 1e9 << "s";
               os << " => " << res.status << ", " << reqs.size() << " requests";
             });
             c.check_f(refused ? reqs.empty() : reqs.size() == a + 1, [&] {
               return std::to_string(reqs.size()) + " requests instead of " + std::to_string(a + 1);
             });
             c.check_f(sleeps == want_sleeps, [&] { return "wrong pauses: " + std::to_string(sleeps.size()) + " of them"; });
             for (auto& g : reqs) {
               c.check_f(g.method == method && g.target == url.target, [&] { return "received " + g.method + " " + quote(g.target); });
               c.check(g.complete, "received an incomplete body");
               for (auto& o : own) {
                 auto h = g.header(o.first.c_str());
                 c.check_f(h && *h == o.second, [&] { return "header " + o.first + " did not arrive"; });
               }
               if (method == "POST") {
                 auto ct = g.header("Content-Type");
                 c.check_f(ct && *ct == ctype && g.count("Content-Type") == 1, [&] { return "wrong content type " + (ct ? *ct : "none"); });
                 auto ce = g.header("Content-Encoding");
                 c.check_f(gz ? ce && *ce == "gzip" && g.count("Content-Encoding") == 1 : ce == nullptr, [] { return "wrong content encoding"; });
                 auto got = gz && kind != 5 ? inflate_all(c, reinterpret_cast<const uint8_t*>(g.body.data()), g.body.size()) : g.body;
                 c.check_f(got == body, [&] { return "received a body of " + std::to_string(got.size()) + " bytes that differs from the " + std::to_string(body.size()) + " sent"; });
               } else {
                 c.check(g.body.empty(), "a body nobody asked for");
               }
             }
             bool transport = refused || fin.rep.kind != HttpRep::Answer;
             c.check_f(res.status == (transport ? -1 : fin.rep.status), [&] { return "returned status " + std::to_string(res.status); });
             std::string want_body = !transport && hc.read_body ? fin.rep.body : "";
             c.check_f(res.raw_body == want_body, [&] {
               return "returned a body of " + std::to_string(res.raw_body.size()) + " bytes, expected " + std::to_string(want_body.size());
             });
             if (transport || !hc.read_headers) {
               c.check(res.headers.empty(), "returned headers");
             } else {
               for (auto& h : fin.headers) {
                 auto it = res.headers.find(h.first);
                 c.check_f(it != res.headers.end() && it->second == h.second, [&] {
                   return "header " + h.first + " is " + (it == res.headers.end() ? "missing" : quote(it->second)) + ", sent " + quote(h.second);
                 });
               }
               c.check_f(res.headers.size() == fin.headers.size() + 1, [&] { return std::to_string(res.headers.size()) + " headers returned"; });
             }
             c.nontrivial(a > 0);
             c.label_if(stall, "no answer");
             c.label_if(refused, "refused");
             c.label_if(a == 2, "three attempts");
             c.label_if(!hc.status_metrics_enabled, "no status metrics");
             if (c.chance(1, 3) || q + 1 == n_req) {
               auto d = model::diff(m.measure(), report(r.Measurements()));
               c.check_f(d.empty(), [&] { return "the ipc.client.call timers differ:\n" + d; });
             }
           }
         },
         false, false, 8, 60, 60, 700, init, {"the server is on the loopback interface and speaks plain HTTP; pauses between attempts and slow answers take virtual time"}}};

}  // namespace
