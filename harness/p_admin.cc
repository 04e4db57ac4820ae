// The admin server: a model of its state, driven over HTTP.
#include "gen.h"
#include "ids.h"
#include "regtools.h"
#include "vclock.h"

#include "admin/admin_server.h"

#include <arpa/inet.h>
#include <atomic>
#include <netinet/in.h>
#include <rapidjson/document.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace {
using namespace vf;
using model::kSec;
using model::MId;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

std::atomic<spectator::Registry*> g_registry{nullptr};
int g_port = 0;

// the program's factory, for the registry of the current case
struct Factory : Poco::Net::HTTPRequestHandlerFactory {
  Poco::Net::HTTPRequestHandler* createRequestHandler(const Poco::Net::HTTPServerRequest& q) override {
    return admin::RequestHandlerFactory(*g_registry.load()).createRequestHandler(q);
  }
};

void init() {
  quiet_logs();
  Poco::Net::ServerSocket s(Poco::Net::SocketAddress("127.0.0.1", 0));
  g_port = s.address().port();
  auto* p = new Poco::Net::HTTPServerParams;
  p->setKeepAlive(false);
  auto* h = new Poco::Net::HTTPServer(new Factory, s, p);
  h->start();
}

struct Reply {
  int status = 0;
  std::string body, type;
};
struct Query {
  std::string method, target, host = "localhost", body;
  bool operator==(const Query& o) const { return method == o.method && target == o.target && body == o.body; }
};

Reply ask(const Query& q) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(static_cast<uint16_t>(g_port));
  Reply r;
  if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) {
    close(fd);
    return r;
  }
  std::string s = q.method + " " + q.target + " HTTP/1.1\r\nHost: " + q.host + "\r\nConnection: close\r\n";
  if (!q.body.empty() || q.method == "POST") s += "Content-Length: " + std::to_string(q.body.size()) + "\r\n";
  s += "\r\n" + q.body;
  for (size_t at = 0; at < s.size();) {
    auto n = send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
    if (n <= 0) break;
    at += static_cast<size_t>(n);
  }
  std::string in;
  char b[65536];
  ssize_t n;
  while ((n = recv(fd, b, sizeof b, 0)) > 0) in.append(b, static_cast<size_t>(n));
  close(fd);
  auto e = in.find("\r\n\r\n");
  if (in.compare(0, 5, "HTTP/") != 0 || e == std::string::npos) return r;
  r.status = atoi(in.c_str() + 9);
  auto head = in.substr(0, e + 2);
  auto body = in.substr(e + 4);
  auto field = [&](const char* k) -> std::string {
    auto at = head.find(std::string("\r\n") + k + ": ");
    if (at == std::string::npos) return "";
    at += strlen(k) + 4;
    return head.substr(at, head.find("\r\n", at) - at);
  };
  r.type = field("Content-Type");
  if (field("Transfer-Encoding") == "chunked") {
    for (size_t at = 0;;) {
      auto nl = body.find("\r\n", at);
      if (nl == std::string::npos) break;
      auto len = strtoull(body.c_str() + at, nullptr, 16);
      if (len == 0) break;
      r.body += body.substr(nl + 2, len);
      at = nl + 2 + len + 2;
    }
  } else {
    r.body = body;
  }
  return r;
}

std::string plain(Ctx& c, int64_t min, int64_t max) {
  static const char k[] = "abcXYZ019._-~^";
  std::string s;
  auto n = c.range(min, max);
  for (int64_t i = 0; i < n; ++i) s += k[c.draw(sizeof k - 1)];
  return s;
}

std::string printable(Ctx& c, int64_t min, int64_t max) {
  std::string s;
  auto n = c.range(min, max);
  for (int64_t i = 0; i < n; ++i) s += static_cast<char>(c.range(0x20, 0x7e));
  return s;
}

std::string json_string(Ctx& c, const std::string& s) {
  std::string o = "\"";
  for (auto ch : s) {
    if (ch == '"' || ch == '\\')
      (o += '\\') += ch;
    else if (c.chance(1, 12)) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", static_cast<unsigned char>(ch));
      o += b;
    } else
      o += ch;
  }
  return o + "\"";
}

const std::vector<std::string> kAllowed{"mantisJobId",       "mantisJobName",      "mantisUser",
                                        "mantisWorkerIndex", "mantisWorkerNumber", "mantisWorkerStageNumber"};

struct Listed {
  MId id;
  double v;
};

// id and value of every entry of a list of meters
std::vector<std::pair<std::string, double>> listed(Ctx& c, const rapidjson::Document& d, const char* what) {
  std::vector<std::pair<std::string, double>> r;
  c.check_f(d.HasMember(what) && d[what].IsArray(), [&] { return std::string("no list of ") + what; });
  for (auto& e : d[what].GetArray()) {
    c.check_f(e.IsObject() && e.HasMember("name") && e["name"].IsString() && e.HasMember("tags") && e["tags"].IsObject() &&
                  e.HasMember("value") && e["value"].IsString(),
              [&] { return std::string("an entry of ") + what + " has another form"; });
    MId id;
    id.name = e["name"].GetString();
    for (auto& t : e["tags"].GetObject()) {
      c.check(t.value.IsString(), "a tag value is no string");
      c.check(id.tags.emplace(t.name.GetString(), t.value.GetString()).second, "a tag is listed twice");
    }
    char* end = nullptr;
    auto v = strtod(e["value"].GetString(), &end);
    c.check_f(end != e["value"].GetString() && *end == 0, [&] { return "value of " + id.str() + " is no number: " + e["value"].GetString(); });
    if (id.name.compare(0, 10, "spectator.") == 0) continue;  // the program's own
    r.emplace_back(id.str(), v);
  }
  return r;
}

struct World {
  Ctx& c;
  Model m;
  std::map<std::string, std::string> common;
  std::unique_ptr<TestRegistry> r;
  std::vector<MId> ids;

  explicit World(Ctx& ctx) : c(ctx) {
    vclock_set(kStart);
    m.now = kStart;
    auto cfg = std::make_unique<spectator::Config>();
    m.age_limit = static_cast<size_t>(c.range(0, 40));
    cfg->age_gauge_limit = m.age_limit;
    cfg->status_metrics_enabled = false;
    cfg->batch_size = static_cast<int>(c.range(-1, 20000));
    cfg->connect_timeout = absl::Milliseconds(c.range(0, 10000));
    cfg->read_timeout = absl::Milliseconds(c.range(0, 10000));
    cfg->frequency = absl::Milliseconds(c.range(0, 60000));
    cfg->expiration_frequency = absl::Milliseconds(c.range(0, 60000));
    cfg->meter_ttl = absl::Seconds(c.flip() ? 900 : c.range(1, 5000));
    cfg->external_enabled = c.flip();
    cfg->metatron_dir = printable(c, 0, 10);
    cfg->uri = printable(c, 0, 20);
    auto n = c.range(0, 3);
    for (int64_t i = 0; i < n; ++i) common["nf." + plain(c, 1, 4)] = printable(c, 1, 6);
    if (c.flip()) common[c.pick(kAllowed)] = printable(c, 1, 6);
    cfg->common_tags = common;
    m.ttl = absl::ToInt64Nanoseconds(cfg->meter_ttl);
    m.gauge_ttl = m.ttl;
    r = std::make_unique<TestRegistry>(std::move(cfg), null_logger());
    g_registry = r.get();
    auto k = c.range(1, 12);
    for (int64_t i = 0; i < k; ++i) {
      MId id;
      id.name = i > 0 && c.chance(1, 3) ? ids[c.draw(ids.size())].name : plain(c, 1, 8);
      auto t = c.weighted({3, 2, 1}) == 2 ? c.range(0, 12) : c.draw(3);
      for (int64_t j = 0; j < static_cast<int64_t>(t); ++j) id.tags[plain(c, 1, 3)] = plain(c, 1, 3);
      if (i > 0 && c.chance(1, 4)) {  // what another one is reported as
        id = ids[c.draw(ids.size())];
        id.tags["statistic"] = c.pick({"gauge", "gauge", "max", "count"});
      }
      if (std::find(ids.begin(), ids.end(), id) == ids.end()) ids.push_back(id);
    }
  }
  ~World() { g_registry = nullptr; }

  void record() {
    const auto& id = c.pick(ids);
    record(id, "cdgmACUtX"[c.draw(9)]);
  }
  // many meters of one type
  void bulk() {
    auto n = c.range(200, 3000);
    char kind = "cdgmACUtX"[c.draw(9)];
    if (kind == 'A') n = std::min<int64_t>(n, 60);
    c.trace([&](auto& os) { os << "record " << n << " meters of type " << kind; });
    MId id{"bulk", {}};
    for (int64_t i = 0; i < n; ++i) {
      id.tags["i"] = std::to_string(i);
      record(id, kind, 1 + static_cast<double>(i));
    }
    ids.push_back(id);
    c.label("hundreds of meters of one type");
  }
  void record(const MId& id, char kind, std::optional<double> given = {}) {
    auto sid = id_of(id);
    auto d = given ? *given : c.number(true);
    if (!given) c.trace([&](auto& os) { os << "record " << kind << " " << id.str() << " " << dstr(d); });
    switch (kind) {
      case 'c':
        r->GetCounter(sid)->Add(d);
        if (m.counters.count(id) == 0) m.counters[id].touch(m.now);
        m.counter(id, d);
        break;
      case 'd':
        r->GetDistributionSummary(sid)->Record(d);
        m.dist(id, d);
        break;
      case 'g': {
        if (!given && c.chance(1, 6)) {
          d = NAN;
          c.label("gauge without a value");
        }
        auto ttl = given || c.flip() ? std::optional<int64_t>() : std::optional<int64_t>(c.range(1, 100));
        (ttl ? r->GetGauge(sid, absl::Seconds(*ttl)) : r->GetGauge(sid))->Set(d);
        m.gauge(id, d, ttl);
        break;
      }
      case 'm':
        r->GetMaxGauge(sid)->Set(d);
        m.max(id, d);
        break;
      case 'A':
        r->GetAgeGauge(sid)->UpdateLastSuccess(m.now - 1000);
        m.age(id, m.now - 1000);
        break;
      case 'C':
        r->GetMonotonicCounter(sid)->Set(d);
        m.mono(id, d);
        break;
      case 'U': {
        auto u = given ? static_cast<uint64_t>(*given) : c.draw(0);
        r->GetMonotonicCounterUint(sid)->Set(u);
        m.monou(id, u);
        break;
      }
      case 't': {
        auto ns = given ? static_cast<int64_t>(*given) : c.range(-5, 1000000000);
        r->GetTimer(sid)->Record(absl::Nanoseconds(ns));
        m.timer(id, ns);
        break;
      }
      default:
        r->GetMonotonicSampled(sid)->Set(d, m.now);
        m.sample(id, d, m.now);
    }
  }

  void compare(const char* what, const model::Report& want, const model::Report& got) {
    // no tolerance below what formatting loses
    auto d = model::diff(want, got, 1e-9, 1e-12);
    c.check_f(d.empty(), [&] { return std::string("the list of ") + what + " is wrong:\n" + d; });
  }

  void list() {
    auto a = ask({"GET", "/metrics"});
    c.check_f(a.status == 200 && a.type == "application/json", [&] { return "GET /metrics: " + std::to_string(a.status); });
    rapidjson::Document d;
    d.Parse(a.body.c_str(), a.body.size());
    c.check(!d.HasParseError() && d.IsObject(), "GET /metrics is not JSON");
    model::Report w;
    for (auto& kv : m.ages) w.emplace_back(kv.first.str(), static_cast<double>(m.now - kv.second.last) / 1e9);
    compare("age_gauges", w, listed(c, d, "age_gauges"));
    w.clear();
    for (auto& kv : m.counters) w.emplace_back(kv.first.str(), kv.second.v);
    compare("counters", w, listed(c, d, "counters"));
    w.clear();
    for (auto& kv : m.dists) w.emplace_back(kv.first.str(), kv.second.total);
    compare("dist_summaries", w, listed(c, d, "dist_summaries"));
    w.clear();
    auto g = listed(c, d, "gauges");
    for (auto& kv : m.gauges) w.emplace_back(kv.first.str(), kv.second.v);
    for (auto& kv : m.gauges)
      if (!m.fresh(kv.second)) {  // whether it still reads as its last value depends on reports
        for (auto* x : {&w, &g})
          for (auto& e : *x)
            if (e.first == kv.first.str()) e.second = 0;
      }
    compare("gauges", w, g);
    w.clear();
    for (auto& kv : m.maxes) w.emplace_back(kv.first.str(), kv.second.has ? kv.second.v : NAN);
    compare("max_gauges", w, listed(c, d, "max_gauges"));
    w.clear();
    for (auto& kv : m.monos) w.emplace_back(kv.first.str(), kv.second.v - kv.second.prev);
    compare("mono_counters", w, listed(c, d, "mono_counters"));
    w.clear();
    for (auto& kv : m.monous)
      w.emplace_back(kv.first.str(), kv.second.init ? static_cast<double>(kv.second.v - kv.second.prev) : NAN);
    compare("mono_counters_uint", w, listed(c, d, "mono_counters_uint"));
    w.clear();
    for (auto& kv : m.timers) w.emplace_back(kv.first.str(), kv.second.total);
    compare("timers", w, listed(c, d, "timers"));
    c.check(d.HasMember("stats") && d["stats"].IsObject(), "no stats");
    uint64_t total = 0;
    for (auto k : {"age_gauges", "counters", "dist_summaries", "gauges", "max_gauges", "mono_counters", "mono_counters_uint", "timers"}) {
      auto key = std::string(k) + ".size";
      c.check_f(d["stats"].HasMember(key.c_str()) && d["stats"][key.c_str()].IsUint64() &&
                    d["stats"][key.c_str()].GetUint64() == d[k].Size(),
                [&] { return "wrong " + key; });
      total += d[k].Size();
    }
    c.check(d["stats"].HasMember("total.size") && d["stats"]["total.size"].GetUint64() == total, "wrong total.size");
  }

  void show_config() {
    auto a = ask({"GET", "/config"});
    c.check_f(a.status == 200 && a.type == "application/json", [&] { return "GET /config: " + std::to_string(a.status); });
    rapidjson::Document d;
    d.Parse(a.body.c_str(), a.body.size());
    c.check_f(!d.HasParseError() && d.IsObject(), [&] { return "GET /config is not JSON: " + a.body; });
    const auto& cfg = r->GetConfig();
    auto num = [&](const char* k, double v) {
      c.check_f(d.HasMember(k) && d[k].IsNumber() && model::close(d[k].GetDouble(), v, 1e-9, 1e-9), [&] { return std::string("config: ") + k + " is wrong"; });
    };
    auto ms = [](absl::Duration x) { return absl::ToDoubleMilliseconds(x); };
    num("age_gauge_limit", static_cast<double>(m.age_limit));
    num("batch_size", cfg.batch_size);
    num("connect_timeout", ms(cfg.connect_timeout));
    num("read_timeout", ms(cfg.read_timeout));
    num("frequency", ms(cfg.frequency));
    num("expiration_frequency", ms(cfg.expiration_frequency));
    num("meter_ttl", ms(cfg.meter_ttl));
    auto boolean = [&](const char* k, bool v) {
      c.check_f(d.HasMember(k) && d[k].IsBool() && d[k].GetBool() == v, [&] { return std::string("config: ") + k + " is wrong"; });
    };
    boolean("external_enabled", cfg.external_enabled);
    boolean("status_metrics_enabled", false);
    auto str = [&](const char* k, const std::string& v) {
      c.check_f(d.HasMember(k) && d[k].IsString() && d[k].GetString() == v, [&] { return std::string("config: ") + k + " is wrong"; });
    };
    str("metatron_dir", cfg.metatron_dir);
    str("uri", cfg.uri);
    c.check(d.HasMember("common_tags") && d["common_tags"].IsObject(), "config: no common tags");
    std::map<std::string, std::string> got;
    for (auto& t : d["common_tags"].GetObject()) got[t.name.GetString()] = t.value.IsString() ? t.value.GetString() : "?";
    c.check_f(got == common, [&] {
      std::string s = "config: common tags are";
      for (auto& t : got) s += " " + quote(t.first) + "=" + quote(t.second);
      s += ", expected";
      for (auto& t : common) s += " " + quote(t.first) + "=" + quote(t.second);
      return s;
    });
  }

  std::string some_host(bool* local) {
    auto k = c.weighted({5, 2, 2, 2, 2, 1});
    *local = k < 3;
    switch (k) {
      case 0:
        return c.flip() ? "localhost" : "localhost:" + std::to_string(c.range(1, 65535));
      case 1:
        return "127.0.0.1:1234";
      case 2:
        return "[::1]:1234";
      case 3:
        return "example.com";
      case 4:
        return "10.0.0.1:1234";
      default:
        return "[fe80::1]";
    }
  }

  void expect(const Query& q, int status) {
    auto a = ask(q);
    c.trace([&](auto& os) { os << q.method << " " << q.target << " host " << q.host << " " << quote(q.body) << " -> " << a.status; });
    c.check_f(a.status == status, [&] {
      return q.method + " " + q.target + " (host " + q.host + ", body " + quote(q.body) + ") answered " + std::to_string(a.status) +
             ", expected " + std::to_string(status);
    });
    if (!a.body.empty()) {
      rapidjson::Document d;
      d.Parse(a.body.c_str(), a.body.size());
      c.check_f(a.type == "application/json" && !d.HasParseError(), [&] { return q.method + " " + q.target + ": the answer " + quote(a.body) + " has type " + quote(a.type); });
    }
  }

  bool post_tags() {
    bool local;
    Query q{"POST", "/config/common_tags", some_host(&local), ""};
    std::map<std::string, std::string> change;
    bool ok = true;
    auto kind = c.weighted({6, 2, 2, 1, 1});
    if (kind <= 2) {
      std::vector<std::pair<std::string, std::string>> members;
      auto n = c.range(kind == 0 ? 0 : 1, 4);
      std::vector<std::string> keys = kAllowed;
      for (int64_t i = 0; i < n; ++i) {
        auto at = c.draw(keys.size());
        auto k = keys[at];
        keys.erase(keys.begin() + static_cast<long>(at));
        auto v = c.chance(1, 3) ? std::string() : printable(c, 1, 8);
        change[k] = v;
        members.emplace_back(k, json_string(c, v));
      }
      if (kind == 1) {  // one key that must not be set
        ok = false;
        auto& e = members[c.draw(members.size())];
        e.first = c.pick({"nf.app", "mantisjobid", "mantisJobId2", "mantis", "", "x"});
      } else if (kind == 2) {
        ok = false;
        auto& e = members[c.draw(members.size())];
        e.second = c.pick({"1", "null", "true", "{}", "[\"x\"]", "1.5"});
      }
      q.body = "{";
      for (size_t i = 0; i < members.size(); ++i) q.body += (i ? ", " : "") + json_string(c, members[i].first) + ": " + members[i].second;
      q.body += "}";
    } else if (kind == 3) {
      ok = false;
      q.body = c.pick({"[]", "[{\"mantisUser\":\"x\"}]", "[\"mantisUser\"]"});
    } else {
      ok = false;
      q.body = c.pick({"", "{", "{\"mantisUser\":", "{\"mantisUser\":\"x\"", "nonsense", "{\"mantisUser\" \"x\"}", "{mantisUser:x"});
    }
    ok = ok && local;
    expect(q, ok ? 200 : 400);
    bool effect = false;
    if (ok)
      for (auto& kv : change) {
        if (kv.second.empty())
          effect = common.erase(kv.first) > 0 || effect;
        else {
          effect = effect || common[kv.first] != kv.second;
          common[kv.first] = kv.second;
        }
      }
    c.label_if(ok && effect, "common tags changed");
    c.label_if(!ok, "an update refused");
    return effect;
  }

  bool remove() {
    bool local;
    Query q{"DELETE", "", some_host(&local), ""};
    char type = c.flip() ? 'A' : 'g';
    q.target = std::string("/metrics/") + type;
    if (c.chance(1, 5)) {
      expect(q, local ? 200 : 400);
      if (!local) return false;
      bool any = type == 'A' ? !m.ages.empty() : !m.gauges.empty();
      if (type == 'A')
        m.ages.clear();
      else
        m.gauges.clear();
      c.label("all deleted");
      return any;
    }
    MId id = c.pick(ids);
    if (c.chance(1, 6)) id.tags[plain(c, 1, 2)] = plain(c, 1, 2);
    if (c.chance(1, 8)) id.name += plain(c, 1, 1);
    std::vector<std::pair<std::string, std::string>> t(id.tags.begin(), id.tags.end());
    if (c.flip()) std::reverse(t.begin(), t.end());
    q.target += "/" + id.name;
    for (auto& kv : t) q.target += "," + kv.first + "=" + kv.second;
    bool there = type == 'A' ? m.ages.count(id) : m.gauges.count(id);
    expect(q, !local ? 400 : there ? 200 : 404);
    if (!local || !there) return false;
    if (type == 'A')
      m.ages.erase(id);
    else
      m.gauges.erase(id);
    c.label("one deleted");
    return true;
  }

  void sizes() {
    c.check_f(r->AgeGauges().size() == m.ages.size() && r->Gauges().size() == m.gauges.size(), [&] {
      return "there are " + std::to_string(r->AgeGauges().size()) + " age gauges and " + std::to_string(r->Gauges().size()) + " gauges, expected " +
             std::to_string(m.ages.size()) + " and " + std::to_string(m.gauges.size());
    });
  }
};

// requests while the meters are used, deleted and expired by other threads
void busy(Ctx& c) {
  vclock_set(kStart);
  auto cfg = config(false, 1000);
  cfg->meter_ttl = absl::Seconds(100);
  TestRegistry r(std::move(cfg), null_logger());
  g_registry = &r;
  auto n = c.range(50, 400);
  auto fill = [&] {
    for (int64_t i = 0; i < n; ++i) {
      auto name = "n" + std::to_string(i);
      r.GetGauge(name)->Set(1);
      r.GetAgeGauge(name)->UpdateLastSuccess();
      r.GetCounter(name)->Increment();
      r.GetTimer(name)->Record(absl::Seconds(1));
      r.GetMaxGauge(name)->Set(1);
      r.GetMonotonicCounter(name)->Set(1);
      r.GetMonotonicCounterUint(name)->Set(1);
      r.GetDistributionSummary(name)->Record(1);
    }
  };
  fill();
  std::atomic<bool> stop{false};
  std::atomic<int> rounds{0};
  std::thread churn([&] {
    while (!stop) {
      r.DeleteAllMeters("A");
      r.DeleteAllMeters("g");
      vclock_advance(101 * kSec);
      r.remove_expired_meters();
      fill();
      ++rounds;
    }
  });
  auto k = c.range(2, 6);
  std::string bad;
  for (int64_t i = 0; i < k && bad.empty(); ++i) {
    auto a = ask({"GET", "/metrics"});
    if (a.status != 200) bad = "GET /metrics under load: " + std::to_string(a.status);
    rapidjson::Document d;
    d.Parse(a.body.c_str(), a.body.size());
    if (d.HasParseError()) bad = "GET /metrics under load is not JSON";
    auto b = ask({"DELETE", "/metrics/g/n" + std::to_string(i)});
    if (b.status != 200 && b.status != 404) bad = "DELETE under load: " + std::to_string(b.status);
  }
  stop = true;
  churn.join();
  g_registry = nullptr;
  c.check_f(bad.empty(), [&] { return bad; });
  c.label("under load");
}

Reg c22{{"C22",
         "A case is a registry with up to 12 ids, a configuration, and a history of recordings of nine kinds, elapsed time, expiry, reports and HTTP requests to the admin server: listing, "
         "configuration, updates of common tags (allowed and other keys, strings and other values, other JSON, broken JSON), deletions of one or all gauges and age gauges (known and unknown), "
         "unknown endpoints and methods, each from local and foreign hosts. Oracle: a model of meters and common tags; every answer has the right status and, for the listings, exactly the right "
         "content; refused requests change nothing, reading changes nothing, updates are all or nothing. In one of 20 cases the requests come while other threads record, delete and expire. "
         "Non-trivial: a listing after a deletion or update that had an effect.",
         4500, 50000,
         [](Ctx& c) {
           if (c.chance(1, 20)) {
             busy(c);
             return;
           }
           World w(c);
           auto& m = w.m;
           bool changed = false, seen = false;
           while (c.more(25)) {
             Ctx::Span sp(c);
             switch (c.weighted({12, 3, 3, 4, 5, 1, 1, 1, 2})) {
               case 0:
                 if (c.chance(1, 100))
                   w.bulk();
                 else
                   w.record();
                 break;
               case 1:
                 c.trace([&](auto& os) { os << "GET /metrics"; });
                 w.list();
                 seen = seen || changed;
                 break;
               case 2:
                 c.trace([&](auto& os) { os << "GET /config"; });
                 w.show_config();
                 seen = seen || changed;
                 break;
               case 3:
                 changed = w.post_tags() || changed;
                 break;
               case 4:
                 changed = w.remove() || changed;
                 break;
               case 5: {
                 auto dt = c.flip() ? c.range(1, 120) * kSec : m.ttl + c.range(-1, 1);
                 c.trace([&](auto& os) { os << "time +" << dt; });
                 vclock_advance(dt);
                 m.now += dt;
                 if (c.flip()) {
                   c.trace([&](auto& os) { os << "expire"; });
                   w.r->remove_expired_meters();
                   m.expire();
                 }
                 break;
               }
               case 6: {
                 c.trace([&](auto& os) { os << "report"; });
                 auto d = model::diff(m.measure(), report(w.r->Measurements()));
                 c.check_f(d.empty(), [&] { return "the report differs:\n" + d; });
                 break;
               }
               case 7: {
                 if (c.flip()) {
                   Query q{"GET", "/", c.flip() ? "localhost:1234" : "example.com", ""};
                   auto a = ask(q);
                   rapidjson::Document d;
                   d.Parse(a.body.c_str(), a.body.size());
                   c.check(a.status == 200 && a.type == "application/json" && !d.HasParseError() && d.IsObject() && d.HasMember("endpoints") &&
                               d["endpoints"].IsArray(),
                           "GET / does not describe the service");
                   std::set<std::string> got;
                   for (auto& e : d["endpoints"].GetArray()) got.insert(e.IsString() ? e.GetString() : "?");
                   auto h = "http://" + q.host;
                   c.check(got == std::set<std::string>{h, h + "/config", h + "/config/common_tags", h + "/metrics"}, "GET / lists other endpoints");
                 } else {
                   auto a = ask({"GET", "/config/common_tags"});
                   c.check(a.status == 200, "GET /config/common_tags fails");
                   for (auto& k : kAllowed)
                     c.check_f(a.body.find(k) != std::string::npos, [&] { return "GET /config/common_tags does not mention " + k; });
                 }
                 break;
               }
               default: {  // no such endpoint
                 static const std::vector<std::pair<const char*, const char*>> kNone{
                     {"GET", "/x"},         {"POST", "/"},        {"DELETE", "/metrics"}, {"DELETE", "/metrics/"},    {"DELETE", "/metrics/c"},
                     {"GET", "/metrics/A"}, {"GET", "/metrics/"}, {"POST", "/metrics"},   {"PUT", "/config"},         {"DELETE", "/config/common_tags"},
                     {"POST", "/config"},   {"GET", "/config/"},  {"PUT", "/metrics/g"},  {"DELETE", "/metrics/t/x"}, {"DELETE", "/metrics/a"}};
                 auto& e = c.pick(kNone);
                 bool local;
                 auto host = w.some_host(&local);
                 w.expect({e.first, e.second, host, ""}, 404);
               }
             }
             w.sizes();
           }
           w.list();
           w.show_config();
           auto d = model::diff(m.measure(), report(w.r->Measurements()));
           c.check_f(d.empty(), [&] { return "the last report differs:\n" + d; });
           c.nontrivial(seen);
         },
         false, true, 8, 60, 40, 700, init, {"virtual clock for the meters", "ids of Atlas characters, as the URI is not decoded"}}};
}  // namespace
