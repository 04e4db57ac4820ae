// The whole daemon in one process under the scheduler: registry, publisher,
// expirer, server with its sockets and its janitor, and a scripted aggregator.
// Time is virtual, so that minutes of it pass in milliseconds.
#include "schedrun.h"

#include "gen.h"
#include "httpd.h"
#include "ids.h"
#include "lines.h"
#include "ports.h"
#include "regtools.h"
#include "smile_dec.h"
#include "vclock.h"

#include "server/spectatord.h"
#include "spectator/string_pool.h"

#include <csignal>
#include <fcntl.h>
#include <linux/sock_diag.h>
#include <netinet/in.h>
#include <sys/file.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/un.h>

namespace {
using namespace vf;
using model::kSec;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;
constexpr int64_t kMs = 1000000;

HttpServer* http = nullptr;

std::string plan_text(const sched::Plan& p) { return sched::text(p); }

void finish(Ctx& c, const sched::Result& r) {
  c.trace([&](auto& os) { os << r.points << " points, " << r.switches << " switches, " << r.preemptions << " preemptions"; });
  c.check_f(r.failure.empty(), [&] { return r.failure; });
  c.label_if(r.preemptions > 0, "preempted");
}

void sleep_until(int64_t t) {
  auto d = t - vnow();
  if (d <= 0) return;
  timespec ts{static_cast<time_t>(d / kSec), static_cast<long>(d % kSec)};
  nanosleep(&ts, nullptr);
}

// ---- sockets of the daemon ---------------------------------------------------
struct Udp {
  int fd = -1, peer = -1;
  explicit Udp(int port) {
    fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(static_cast<uint16_t>(port));
    connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
    for (int i = 3; i < 1024; ++i) {  // the receiver is in this process
      sockaddr_in6 b{};
      socklen_t l = sizeof b;
      int type = 0;
      socklen_t tl = sizeof type;
      if (i == fd || getsockopt(i, SOL_SOCKET, SO_TYPE, &type, &tl) != 0 || type != SOCK_DGRAM) continue;
      if (getsockname(i, reinterpret_cast<sockaddr*>(&b), &l) != 0 || (b.sin6_family != AF_INET && b.sin6_family != AF_INET6)) continue;
      if (ntohs(b.sin6_port) == port) peer = i;  // at the same place for both families
    }
  }
  ~Udp() { close(fd); }
  uint32_t queued() const {
    uint32_t m[SK_MEMINFO_VARS] = {};
    socklen_t l = sizeof m;
    getsockopt(peer, SOL_SOCKET, SO_MEMINFO, m, &l);
    return m[SK_MEMINFO_RMEM_ALLOC];
  }
  // sends, and waits (in real time) until it has arrived
  bool send(const std::string& s) {
    if (peer < 0) return false;
    bool ok = false;
    sched::atomically([&] {
      auto before = queued();
      if (::send(fd, s.data(), s.size(), MSG_NOSIGNAL) != static_cast<ssize_t>(s.size())) return;
      for (int i = 0; i < 100000 && queued() == before; ++i) syscall(SYS_sched_yield);
      ok = queued() != before;
    });
    return ok;
  }
};
// a socket's queue overflows before its owner can read; how many datagrams are lost
int overflow(const Udp& u, int n) {
  int lost = -1;
  sched::atomically([&] {
    auto drops = [&] {
      uint32_t m[SK_MEMINFO_VARS] = {};
      socklen_t l = sizeof m;
      getsockopt(u.peer, SOL_SOCKET, SO_MEMINFO, m, &l);
      return static_cast<int>(m[SK_MEMINFO_DROPS]);
    };
    int size = 0, small = 1;
    socklen_t l = sizeof size;
    getsockopt(u.peer, SOL_SOCKET, SO_RCVBUF, &size, &l);
    size /= 2;
    setsockopt(u.peer, SOL_SOCKET, SO_RCVBUF, &small, sizeof small);
    int before = drops(), got = 0;
    std::string data(1000, 'x');
    for (int i = 0; i < n; ++i) (void)!::send(u.fd, data.data(), data.size(), MSG_NOSIGNAL);
    char b[2000];
    for (int i = 0; i < 100000 && got + drops() - before < n; ++i) {
      if (recv(u.peer, b, sizeof b, MSG_DONTWAIT) > 0)
        ++got;
      else
        syscall(SYS_sched_yield);
    }
    lost = drops() - before;
    if (got + lost != n) lost = -1;
    setsockopt(u.peer, SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
  });
  return lost;
}
bool send_local(const std::string& path, const std::string& s) {
  int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
  bool ok = ::sendto(fd, s.data(), s.size(), MSG_NOSIGNAL, reinterpret_cast<sockaddr*>(&a), sizeof a) == static_cast<ssize_t>(s.size());
  close(fd);
  return ok;
}

bool handler_installed(int sig) {
  struct sigaction a {};
  sigaction(sig, nullptr, &a);
  return a.sa_handler != SIG_DFL && a.sa_handler != SIG_IGN;
}

// ---- C26: start and stop -------------------------------------------------------
struct LOp {
  enum Kind { Start, Stop, Sleep, Record } kind;
  int64_t ns = 0;
};

void lifecycle(Ctx& c) {
  vclock_set(kStart);
  bool uri = c.chance(5, 6);
  int64_t freq = c.pick(std::vector<int64_t>{5, 5, 3, 10}) * kSec;
  int64_t exp_freq = c.pick(std::vector<int64_t>{60, 10, 7, 0}) * kSec;
  unsigned threads = c.chance(1, 4) ? 2 : 1;
  bool explicit_stop = c.flip();
  int64_t latency = c.chance(1, 3) ? c.range(1, 2000) * kMs : 0;  // of a request
  std::vector<LOp> ops;
  bool running = false;
  int starts = 0;
  auto n = c.range(1, 10);
  for (int64_t i = 0; i < n; ++i) {
    Ctx::Span sp(c);
    switch (c.weighted({4, 3, 5, 4})) {
      case 0:
        if (!running && starts == 4) break;
        starts += !running;
        running = true;
        ops.push_back({LOp::Start});
        break;
      case 1:
        running = false;
        ops.push_back({LOp::Stop});
        break;
      case 2:
        ops.push_back({LOp::Sleep, c.chance(1, 3) ? std::max(exp_freq, freq) * c.range(1, 3) : c.weighted({3, 2, 1}) == 0 ? c.range(0, 12) * kSec : c.flip() ? c.range(0, 90) * kSec : c.range(0, 20 * kSec)});
        break;
      case 3: ops.push_back({LOp::Record}); break;
    }
  }
  if (explicit_stop) ops.push_back({LOp::Stop});
  auto plan = sched::draw_plan(c, true);
  c.trace([&](auto& os) {
    os << "registry " << (uri ? "with" : "without") << " uri, publishing every " << freq / kSec << " s, expiring every " << exp_freq / kSec << " s, " << threads << " sender threads, answers after " << latency / kMs << " ms:";
    for (auto& o : ops) {
      os << (o.kind == LOp::Start ? " start" : o.kind == LOp::Stop ? " stop" : o.kind == LOp::Record ? " record" : " sleep");
      if (o.kind == LOp::Sleep) os << " " << o.ns;
    }
    os << "\n" << plan_text(plan);
  });
  vf::g_hw_threads = threads;
  http->start([&](const HttpReq&) {
    vclock_advance(latency);  // the sender waits for the answer meanwhile
    return HttpRep{};
  });
  struct Rec {
    int64_t at;
  };
  struct Window {
    int64_t from, to;
  };
  std::vector<int64_t> records;
  std::vector<Window> windows;
  auto res = sched::run(plan, [&] {
    auto before_all = sched::live();
    {
      auto cfg = config(false);
      if (uri) cfg->uri = "http://127.0.0.1:" + std::to_string(http->port()) + "/api";
      cfg->frequency = absl::Nanoseconds(freq);
      cfg->expiration_frequency = absl::Nanoseconds(exp_freq);
      cfg->meter_ttl = absl::Seconds(60);
      cfg->external_enabled = false;
      auto r = std::make_unique<TestRegistry>(std::move(cfg), null_logger());
      sched::go({[&] {
        auto idle_threads = sched::live();
        bool on = false;
        auto stop = [&](const std::function<void()>& f, int want) {
          auto t = vnow();
          sched::forbid_timeouts("while the registry was being stopped");
          f();
          sched::forbid_timeouts(nullptr);
          if (on) windows.back().to = t;
          on = false;
          // a request under way comes to its end
          if (vnow() != t && vnow() != t + latency) sched::fail("time passed while the registry was being stopped");
          if (sched::live() != want) sched::fail("threads of a stopped registry are alive");
        };
        for (auto& o : ops) {
          switch (o.kind) {
            case LOp::Start:
              if (!on) windows.push_back({vnow(), INT64_MAX});
              on = true;
              r->Start();
              break;
            case LOp::Stop: stop([&] { r->Stop(); }, idle_threads); break;
            case LOp::Sleep: sleep_until(vnow() + o.ns); break;
            case LOp::Record:
              records.push_back(vnow());
              r->GetCounter("r" + std::to_string(records.size() - 1))->Increment();
              break;
          }
          if (sched::failed()) break;
        }
        // the expirer and the sender of a started registry are at work
        if (on && exp_freq > 0 && !sched::failed()) {
          sleep_until(vnow() + 60 * kSec + 2 * exp_freq + 1);
          if (r->Size() != 0) sched::fail("idle meters of a running registry were not expired");
        }
        stop([&] { r.reset(); }, before_all + 1);
      }});
    }
    if (sched::live() != before_all) sched::fail("threads of a destroyed registry are alive");
  });
  vf::g_hw_threads = 1;
  size_t published = 0;
  if (res.failure.empty()) {
    // when was what published
    std::map<std::string, std::vector<int64_t>> got;
    for (auto& q : http->requests()) {
      bool inside = false;
      for (auto& w : windows) inside = inside || (q.at >= w.from && q.at <= w.to);
      c.check_f(inside, [&] { return "something was sent at " + std::to_string(q.at - kStart) + " ns, when the registry was not running"; });
      for (auto& m : decode_payload(c, q.body)) got[m.id()].push_back(q.at);
    }
    for (size_t i = 0; i < records.size(); ++i) {
      // the first interval after the record that a running registry has to publish; at an instant where the order is
      // open it may come earlier
      std::set<int64_t> may;
      int64_t must = INT64_MAX;
      for (auto& w : windows) {
        if (!uri || w.to < records[i]) continue;
        auto k = records[i] <= w.from ? 0 : (records[i] - w.from) / freq;
        for (;; ++k) {
          auto t = w.from + k * freq;
          if (t < records[i]) continue;
          if (t > w.to) break;
          may.insert(t);
          bool certain = t < w.to && (t > records[i] || (k == 0 && t >= records[i]));
          if (k == 0 && t == records[i] && i + 1 <= records.size()) certain = false;
          if (certain) {
            must = std::min(must, t);
            break;
          }
        }
        if (must != INT64_MAX) break;
      }
      auto id = "r" + std::to_string(i) + "|statistic=count";
      auto& g = got[id];
      c.check_f(g.size() <= 1, [&] { return id + " was published " + std::to_string(g.size()) + " times"; });
      // an idle counter may have expired before it could be published
      if (must != INT64_MAX && must - records[i] <= 60 * kSec)
        c.check_f(g.size() == 1, [&] { return id + ", recorded at " + std::to_string(records[i] - kStart) + " ns, was not published at " + std::to_string(must - kStart); });
      if (g.size() == 1)
        c.check_f(may.count(g[0]) == 1, [&] { return id + ", recorded at " + std::to_string(records[i] - kStart) + " ns, was published at " + std::to_string(g[0] - kStart); });
      published += g.size();
    }
  }
  c.label("registry");
  c.label_if(windows.size() > 1, "started again");
  c.label_if(published > 0, "records were published");
  c.nontrivial(!windows.empty());
  finish(c, res);
}

struct Daemon {
  Port main, sd;
  int port = 0, statsd = 0;
  bool want_statsd = false, want_local = false, ipv4 = true;
  std::string path;
  void ports() {
    main.take();
    sd.take();
    port = main.number;
    statsd = sd.number;
    path = scratch() + "/d" + std::to_string(getpid()) + "/s";
  }
  std::unique_ptr<spectatord::Server> make(spectator::Registry* r) const {
    return std::make_unique<spectatord::Server>(ipv4, port, want_statsd ? std::optional<int>(statsd) : std::nullopt,
                                                want_local ? std::optional<std::string>(path) : std::nullopt, r);
  }
};

// wait until the server listens
bool wait_ready(const Daemon& d) {
  for (int i = 0; i < 2000; ++i) {
    if (handler_installed(SIGTERM)) {
      struct stat st {};
      Udp u(d.port);
      bool ok = u.peer >= 0;
      if (ok && d.want_statsd) ok = Udp(d.statsd).peer >= 0;
      if (ok && d.want_local) ok = stat(d.path.c_str(), &st) == 0;
      if (ok) return true;
    }
    timespec ts{0, 1000};
    nanosleep(&ts, nullptr);
  }
  return false;
}

void server_stop(Ctx& c) {
  vclock_set(kStart);
  Daemon d;
  d.ports();
  d.want_statsd = c.flip();
  d.want_local = c.flip();
  bool reg_runs = c.chance(2, 3);
  int sig = c.flip() ? SIGTERM : SIGINT;
  auto rounds = c.chance(1, 3) ? 2 : 1;
  std::vector<int64_t> pause;
    for (int i = 0; i < rounds; ++i) {
    switch (c.weighted({1, 3, 1, 1})) {
      case 0: pause.push_back(0); break;
      case 1: pause.push_back(c.range(0, 3) * 30 * kSec); break;  // when upkeep is due
      case 2: pause.push_back(c.range(0, 70) * kSec); break;
      default: pause.push_back(c.range(0, 40 * kSec)); break;
    }
  }
  bool send = c.flip();
  bool at_once = c.flip();
  auto plan = sched::draw_plan(c, true);
  c.trace([&](auto& os) {
    os << "server" << (d.want_statsd ? " statsd" : "") << (d.want_local ? " local" : "") << (reg_runs ? ", publishing" : "") << ", signal " << sig << " after";
    for (auto p : pause) os << " " << p;
    os << " ns\n" << plan_text(plan);
  });
  http->start([&](const HttpReq&) { return HttpRep{}; });
  auto res = sched::run(plan, [&] {
    auto before_all = sched::live();
    {
      auto cfg = config(true);
      cfg->uri = "http://127.0.0.1:" + std::to_string(http->port()) + "/api";
      cfg->frequency = absl::Seconds(5);
      cfg->expiration_frequency = absl::Seconds(60);
      cfg->external_enabled = false;
      TestRegistry r(std::move(cfg), null_logger());
      if (reg_runs) r.Start();
      for (auto p : pause) {
        auto before = sched::live();
        auto srv = d.make(&r);
        int64_t asked = 0, ended = 0, started = vnow();
        sched::go({[&] {
                     srv->Start();
                     ended = vnow();
                   },
                   [&] {
                     bool ok = true;
                     if (at_once) {
                       // as soon as the signal is handled
                       while (!handler_installed(sig)) sched::yield();
                     } else {
                       ok = wait_ready(d);
                     }
                     if (!ok) {
                       sched::fail("the server did not come up");
                     } else {
                       sleep_until(started + p);
                       if (send && !at_once) {
                         Udp u(d.port);
                         u.send("c:some:1\nt:other:2\n");
                         if (d.want_local) send_local(d.path, "c:some:1");
                       }
                     }
                     asked = vnow();
                     sched::forbid_timeouts("while the server was being stopped");
                     sched::atomically([&] {
                       raise(sig);
                       sched::io_done();
                     });
                   }});
        sched::forbid_timeouts(nullptr);
        if (ended != asked) sched::fail("time passed while the server was being stopped");
        if (sched::live() > before) sched::fail("threads of a stopped server are alive");
        srv.reset();
      }
      sched::forbid_timeouts("while the registry was being destroyed");
    }
    sched::forbid_timeouts(nullptr);
    if (sched::live() != before_all) sched::fail("threads of a destroyed registry are alive");
  });
  if (d.want_local) {
    unlink(d.path.c_str());
    rmdir(d.path.substr(0, d.path.size() - 2).c_str());
  }
  c.label("server");
  c.label_if(pause.size() > 1, "second server");
  c.nontrivial(true);
  finish(c, res);
}

void c26_one(Ctx& c) {
  if (c.chance(1, 4))
    server_stop(c);
  else
    lifecycle(c);
}

// ---- C27, C29: everything that is sent comes out, once, when it should ---------
struct Ev {
  enum Kind { Main, Statsd, Local, DropGauges, Pool, Overflow } kind;
  int64_t at;
  std::string data;
};

bool proc_net_udp_has(int port, bool ipv4) {
  FILE* f = fopen(ipv4 ? "/proc/net/udp" : "/proc/net/udp6", "r");
  if (!f) return false;
  char b[512], want[16];
  snprintf(want, sizeof want, ":%04X", port);
  bool ok = false;
  while (fgets(b, sizeof b, f)) {
    auto* colon = strchr(b, ':');  // after the number of the line
    colon = colon ? strchr(colon + 1, ':') : nullptr;
    ok = ok || (colon && strncmp(colon, want, 5) == 0);
  }
  fclose(f);
  return ok;
}

bool own_name(const std::string& id) { return id.rfind("spectator", 0) == 0 || id.rfind("ipc.", 0) == 0; }

// what belongs to the property at hand
enum Part { Lines, Own };
bool judged(Part part, const std::string& id) {
  static const std::vector<std::string> kOwn = {"spectatord.uptime|", "spectatord.percentileCacheSize|", "spectatord.percentileExpired|", "spectatord.parsedCount|", "spectatord.parseErrors|"};
  for (auto& o : kOwn)
    if (id.rfind(o, 0) == 0) return true;
  return part == Lines && !own_name(id);
}

void daemon(Ctx& c, Part part) {
  vclock_set(kStart);
  Daemon d;
  d.ports();
  d.want_statsd = c.flip();
  d.want_local = c.flip();
  d.ipv4 = c.flip();
  bool status = part == Own || c.flip();
  int64_t ttl = c.chance(1, 3) ? c.range(20, 90) * kSec : 0;
  int64_t exp_freq = c.pick(std::vector<int64_t>{60, 15, 7, 0}) * kSec;
  auto batch = c.chance(1, 3) ? c.range(1, 6) : 10000;
  unsigned threads = static_cast<unsigned>(c.range(1, 3));
  int64_t srv_at = kStart + 1100 * kMs;
  int64_t horizon;
  switch (c.weighted({4, 3, part == Own ? 3u : 1u})) {
    case 0: horizon = c.range(2, 30); break;
    case 1: horizon = c.range(30, 100); break;
    default: horizon = c.chance(1, 12) ? c.range(320, 8000) : c.range(100, 320); break;
  }
  Model m;
  m.now = kStart;
  m.ttl = ttl == 0 ? 15 * 60 * kSec : ttl;
  m.gauge_ttl = ttl;
  lines::Pool pool;
  lines::StatsdPool spool;
  model::MId parsed{"spectatord.parsedCount", {}}, errors{"spectatord.parseErrors", {}};
  model::MId cache_t{"spectatord.percentileCacheSize", {{"id", "timer"}}}, cache_d{"spectatord.percentileCacheSize", {{"id", "dist-summary"}}};
  model::MId exp_t{"spectatord.percentileExpired", {{"id", "timer"}}}, exp_d{"spectatord.percentileExpired", {{"id", "dist-summary"}}};
  std::map<std::string, int64_t> cached_t, cached_d;
  std::vector<Ev> evs;
  std::vector<model::Report> want;  // per interval
  std::vector<int64_t> upkeeps;
  int64_t end = srv_at + horizon * kSec + 411 * kMs;
  // what happens by itself until t
  int64_t tick = kStart, expiry = exp_freq > 0 ? kStart + exp_freq : INT64_MAX, upkeep = srv_at;
  auto until = [&](int64_t t) {
    for (;;) {
      auto at = std::min({tick, expiry, upkeep});
      if (at > t) break;
      m.now = at;
      if (at == expiry) {
        m.expire();
        expiry += exp_freq;
      } else if (at == tick) {
        want.push_back(m.measure());
        tick += 5 * kSec;
      } else {
        if (at == srv_at && status) m.age({"spectatord.uptime", {}}, at);
        auto run = [&](std::map<std::string, int64_t>* cache, const model::MId& size, const model::MId& exp) {
          double n = static_cast<double>(cache->size()), gone = 0;
          for (auto it = cache->begin(); it != cache->end();) {
            if (at - it->second > 120 * kSec) {
              it = cache->erase(it);
              ++gone;
            } else {
              ++it;
            }
          }
          if (status) {
            m.gauge(size, n, std::nullopt);
            m.counter(exp, gone);
          }
          return gone;
        };
        auto g = run(&cached_t, cache_t, exp_t) + run(&cached_d, cache_d, exp_d);
        c.label_if(g > 0, "cached percentile meters expired");
        upkeeps.push_back(at);
        evs.push_back({Ev::Pool, at + kMs, ""});
        upkeep += 30 * kSec;
      }
    }
    m.now = t;
  };
  int64_t t = srv_at + 50 * kMs;
  size_t good = 0, bad = 0, dropped = 0;
  while (c.more(horizon > 60 ? 14 : 9)) {
    Ctx::Span sp(c);
    // hundreds of milliseconds are 2 to 9: never when something else is due
    auto step = c.weighted({5, 4, 1}) == 0 ? 0 : c.flip() ? c.range(0, 7) : c.range(0, horizon);
    t += step * kSec + c.range(2, 90) * kMs;
    auto frac = t % kSec / kMs;
    if (frac < 200) t += 250 * kMs;
    if (t >= end - 200 * kMs) break;
    until(t);
    if (c.chance(1, 16)) {
      m.gauges.clear();
      evs.push_back({Ev::DropGauges, t, ""});
      ++dropped;
      continue;
    }
    // from when its counter has a base for certain
    if (part == Own && m.ttl >= 31 * kSec && upkeeps.size() >= 2 && c.chance(1, 8)) {
      evs.push_back({Ev::Overflow, t, std::string(c.draw(20) + 1, 'x')});
      continue;
    }
    bool statsd = d.want_statsd && c.chance(1, 3);
    std::string pkt;
    if (c.chance(1, 30)) {
      evs.push_back({statsd ? Ev::Statsd : d.want_local && c.flip() ? Ev::Local : Ev::Main, t, ""});
      c.label("an empty datagram");
      continue;
    }
    // now and then a client that sends many lines at once, for one or for many meters
    if (c.chance(1, 24)) {
      auto n = c.range(40, 2800);
      auto names = c.flip() ? 1 : c.range(2, 2000);
      for (int64_t i = 0; i < n; ++i) {
        auto name = "bulk" + (names > 1 ? std::to_string(i % names) : "");
        pkt += (pkt.empty() ? "" : "\n") + (statsd ? name + ":1|c" : "c:" + name + ":1");
        m.counter({name, {}}, 1);
      }
      if (status) m.counter(parsed, static_cast<double>(n));
      c.label(pkt.size() > 8192 ? "a datagram of more than 8 KB" : "a datagram of up to 8 KB in many lines");
    }
    do {
      Ctx::Span sp2(c);
      std::string l;
      char k;
      bool ok = !c.chance(1, 7);
      if (!ok) {
        l = statsd ? lines::bad_statsd_line(c, &spool) : lines::bad_line(c, &pool);
        ++bad;
      } else if (statsd) {
        l = lines::statsd_line(c, &spool, &m, &k);
        ++good;
      } else {
        l = lines::line(c, &pool, &m, &k, part == Own ? "cdgTDTDA" : "cdtmgTDCUAX");
        ++good;
        if (k == 'T' || k == 'D') {
          auto from = l.find(':') + 1;
          auto text = l.substr(from, l.rfind(':') - from);
          for (auto& id : pool.ids)
            if (lines::spell(id) == text) (k == 'T' ? cached_t : cached_d)[id.id().str()] = t;
        }
      }
      if (status) m.counter(ok ? parsed : errors, 1);
      if (!pkt.empty()) pkt += "\n";
      pkt += l;
    } while (pkt.size() < 50000 && c.more(2));
    evs.push_back({statsd ? Ev::Statsd : d.want_local && c.chance(1, 3) ? Ev::Local : Ev::Main, t, pkt});
  }
  until(end);
  std::stable_sort(evs.begin(), evs.end(), [](auto& a, auto& b) { return a.at < b.at; });
  auto plan = sched::draw_plan(c, true);
  c.trace([&](auto& os) {
    os << "daemon" << (d.want_statsd ? " statsd" : "") << (d.want_local ? " local" : "") << (d.ipv4 ? " ipv4" : "") << (status ? " status metrics" : "") << ", ttl " << m.ttl / kSec << " s, expiring every "
       << exp_freq / kSec << " s, batches of " << batch << ", " << threads << " senders, until " << (end - kStart) / kMs << " ms";
    for (auto& e : evs)
      if (e.kind != Ev::Pool)
        os << "\n  at " << (e.at - kStart) / kMs << " ms " << (e.kind == Ev::Overflow ? "the queue of the UDP port overflows " : e.kind == Ev::Main ? "udp " : e.kind == Ev::Statsd ? "statsd " : e.kind == Ev::Local ? "local " : "all gauges deleted ") << (e.data.empty() ? "" : quote(e.data));
    os << "\n" << plan_text(plan);
  });
  vf::g_hw_threads = threads;
  http->start([&](const HttpReq&) { return HttpRep{}; });
  bool up = false, in_proc = false;
  std::vector<spectator::StringPoolStats> pools;
  std::vector<int> lost;
  auto res = sched::run(plan, [&] {
    auto cfg = config(status);
    cfg->uri = "http://127.0.0.1:" + std::to_string(http->port()) + "/api";
    cfg->frequency = absl::Seconds(5);
    cfg->expiration_frequency = absl::Nanoseconds(exp_freq);
    cfg->meter_ttl = absl::Nanoseconds(ttl);
    cfg->external_enabled = false;
    cfg->batch_size = static_cast<int>(batch);
    cfg->common_tags = {{"nf.app", "x"}, {"nf.zone", "y"}};
    TestRegistry r(std::move(cfg), null_logger());
    auto srv = d.make(&r);
    sched::go({[&] {
                 r.Start();
                 sleep_until(srv_at);
                 srv->Start();
                 r.Stop();
               },
               [&] {
                 sleep_until(srv_at + 1);
                 up = wait_ready(d);
                 if (!up) sched::fail("the server did not come up");
                 in_proc = proc_net_udp_has(d.port, d.ipv4);
                 {
                   Udp main(d.port), sd(d.statsd);
                   for (auto& e : evs) {
                     if (sched::failed()) break;
                     sleep_until(e.at);
                     switch (e.kind) {
                       case Ev::Main:
                         if (!main.send(e.data)) sched::fail("a datagram did not arrive");
                         break;
                       case Ev::Statsd:
                         if (!sd.send(e.data)) sched::fail("a statsd datagram did not arrive");
                         break;
                       case Ev::Local:
                         if (!send_local(d.path, e.data)) sched::fail("a local datagram did not arrive");
                         break;
                       case Ev::DropGauges: r.DeleteAllMeters("g"); break;
                       case Ev::Overflow: {
                         auto n = overflow(main, static_cast<int>(e.data.size()));
                         if (n < 0) sched::fail("a datagram did not arrive");
                         lost.push_back(n);
                         break;
                       }
                       case Ev::Pool: sched::atomically([&] { pools.push_back(spectator::string_pool_stats()); }); break;
                     }
                   }
                 }
                 sleep_until(end);
                 sched::atomically([&] {
                   raise(SIGTERM);
                   sched::io_done();
                 });
               }});
  });
  vf::g_hw_threads = 1;
  if (d.want_local) {
    unlink(d.path.c_str());
    rmdir(d.path.substr(0, d.path.size() - 2).c_str());
  }
  size_t total = 0;
  if (res.failure.empty()) {
    std::vector<std::vector<std::pair<std::string, double>>> got(want.size());
    for (auto& q : http->requests()) {
      auto k = (q.at - kStart) / (5 * kSec);
      c.check_f((q.at - kStart) % (5 * kSec) == 0 && static_cast<size_t>(k) < want.size(), [&] { return "a request at " + std::to_string((q.at - kStart) / kMs) + " ms, which is between the intervals"; });
      auto p = decode_payload(c, q.body);
      c.check_f(p.size() <= static_cast<size_t>(batch), [&] { return "a request has " + std::to_string(p.size()) + " measurements"; });
      for (auto& s : p) {
        for (auto kv : {std::pair<const char*, const char*>{"nf.app", "x"}, {"nf.zone", "y"}}) {
          auto it = s.tags.find(kv.first);
          c.check_f(it != s.tags.end() && it->second == kv.second, [&] { return "a measurement without the common tags: " + s.id(); });
          s.tags.erase(it);
        }
        got[static_cast<size_t>(k)].emplace_back(s.id(), s.value);
      }
    }
    // the daemon's metrics about its own publishing and the system
    Model self;
    self.ttl = m.ttl;
    self.gauge_ttl = m.gauge_ttl;
    size_t at_pool = 0;
    auto ev = evs.begin();
    model::MId entries{"spectatord.poolEntries", {}}, alloc{"spectatord.poolAllocSize", {}}, rxq{"spectatord.udpRxQueue", {}}, drops{"spectatord.udpPacketsDropped", {}};
    size_t at_lost = 0;
    int64_t all_lost = 0;
    model::MId sent{"spectator.measurements", {{"id", "sent"}, {"owner", "spectatord"}}}, size{"spectator.registrySize", {{"owner", "spectatord"}}};
    double prev_hits = NAN;
    double hits = 0;
    for (size_t k = 0; k < want.size(); ++k) {
      auto at = kStart + static_cast<int64_t>(k) * 5 * kSec;
      for (; ev != evs.end() && ev->at < at; ++ev) {
        self.now = ev->at;
        if (ev->kind == Ev::DropGauges) self.gauges.clear();
        if (ev->kind == Ev::Overflow) all_lost += lost[at_lost++];
        if (ev->kind == Ev::Pool) {
          self.now = upkeeps[at_pool];
          auto& p = pools[at_pool++];
          self.gauge(entries, static_cast<double>(p.table_size), std::nullopt);
          self.gauge(alloc, static_cast<double>(p.alloc_size), std::nullopt);
          // the first time the socket may not be there yet
          if (in_proc && at_pool > 1) {
            self.max(rxq, 0);
            self.mono(drops, static_cast<double>(all_lost));
          }
          if (!std::isnan(prev_hits)) hits += static_cast<double>(p.hits) - prev_hits;
          prev_hits = static_cast<double>(p.hits);
        }
      }
      self.now = at;
      auto mine = self.measure();
      model::Report a, b, g;
      for (auto& p : want[k])
        if (judged(part, p.first)) a.push_back(p);
      for (auto& p : got[k])
        if (judged(part, p.first)) b.push_back(p);
      total += b.size();
      auto df = model::diff(a, b);
      c.check_f(df.empty(), [&] { return "what was published at " + std::to_string(k * 5) + " s differs from what was received:\n" + df; });
      if (part == Own) {
        for (auto& p : got[k]) {
          bool mod = p.first.rfind("spectatord.poolEntries|", 0) == 0 || p.first.rfind("spectatord.poolAllocSize|", 0) == 0 || p.first.rfind("spectator.registrySize|", 0) == 0 ||
                     p.first.rfind("spectator.measurements|", 0) == 0 || (in_proc && at_pool > 1 && p.first.rfind("spectatord.udp", 0) == 0);
          if (mod) g.push_back(p);
          if (p.first.rfind("spectatord.poolAccess|id=hit", 0) == 0) hits -= p.second;
        }
        auto df2 = model::diff(mine, g);
        c.check_f(df2.empty(), [&] { return "the daemon's own metrics published at " + std::to_string(k * 5) + " s:\n" + df2; });
        // a reading a little later than that of the daemon
        c.check_f(m.ttl < 31 * kSec || std::fabs(hits) < 200, [&] { return "the accesses to the string pool are off by " + dstr(hits); });
      }
      auto n = static_cast<double>(got[k].size());
      if (n > 0) self.counter(sent, n);
      self.dist(size, n);
    }
    c.label_if(in_proc, "listed in /proc/net/udp");
    c.label_if(all_lost > 0, "datagrams were lost");
  }
  c.label_if(status, "status metrics");
  c.label_if(d.want_local, "unix socket");
  c.label_if(d.want_statsd, "statsd");
  c.label_if(bad > 0, "bad lines");
  c.label_if(dropped > 0, "gauges deleted");
  c.label_if(horizon > 100, "long");
  c.label_if(horizon > 3600, "longer than an hour");
  c.nontrivial(total > 2 && want.size() > 2);
  finish(c, res);
}

void init() {
  quiet_logs();
  http = new HttpServer;
  // everything once, for what is initialised only once
  for (uint64_t k = 0; k < 4; ++k) {
    Ctx c({k % 2 == 0 ? uint64_t{0} : uint64_t{1}}, true, 0, false);
    try {
      c26_one(c);
    } catch (const Failure&) {
    } catch (const Discard&) {
    }
  }
  for (uint64_t k = 0; k < 2; ++k) {
    Rng rng(k + 1);
    std::vector<uint64_t> v;
    for (int i = 0; i < 400; ++i) v.push_back(rng.next());
    Ctx c(v, true, 0, false);
    try {
      daemon(c, k ? Own : Lines);
    } catch (const Failure&) {
    } catch (const Discard&) {
    }
  }
}

Reg c26{{"C26",
         "A case is a history of starting, stopping, restarting and destroying a registry (with or without uri, several intervals and sender threads) with records and pauses in between, or a server with its sockets "
         "that gets SIGTERM or SIGINT at any time, under a generated thread schedule with virtual time. Oracle: stopping and destroying end without any timed wait running out and without time passing, leave no thread "
         "behind, nothing is sent while stopped, every record is published exactly once, in the first interval of a running registry, also after a restart, and idle meters expire. Non-trivial: something was started.",
         20000, 400000, c26_one, false, false, 8, 60, 45, 700, init,
         {"requests are answered at once with 200: stopping does wait for a request under way", "schedules are interleavings of the instrumented code"}}};

Reg c27{{"C27",
         "A case is a run of the daemon (UDP, and maybe statsd and unix sockets; random ttl, expiration, batch size, senders) of up to 5 minutes of virtual time, during which datagrams of good and bad lines of all types "
         "arrive and gauges are deleted, under a generated thread schedule. Oracle: the requests of every interval together carry exactly what the reference model reports for the lines received so far. "
         "Non-trivial: more than two intervals and more than two measurements.",
         3500, 150000, [](Ctx& c) { daemon(c, Lines); }, false, false, 8, 60, 50, 700, init,
         {"requests are answered at once with 200", "datagrams arrive at instants when nothing else is due", "the common tags differ from the tags of the lines"}}};

Reg c29{{"C29",
         "As for C27, with status metrics and mostly percentile lines. Oracle: what the daemon publishes about itself (uptime, parsed lines and errors, measurements sent, registry size, size of the percentile caches and what "
         "expired from them, string pool, UDP queue) is in every interval what happened. Non-trivial: more than two intervals and more than two measurements.",
         2500, 100000, [](Ctx& c) { daemon(c, Own); }, false, false, 8, 60, 50, 700, init,
         {"requests are answered at once with 200", "the number of accesses to the string pool is compared within 200, since the daemon reads it a little earlier than the check"}}};
}  // namespace
