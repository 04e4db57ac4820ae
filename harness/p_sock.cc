// Datagrams over real sockets: the receivers by themselves, and the whole server.
#include "common.h"
#include "gen.h"
#include "lines.h"
#include "vclock.h"

#include "server/local_server.h"
#include "server/udp_server.h"

#include <arpa/inet.h>
#include <atomic>
#include <csignal>
#include <netinet/in.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <thread>
#include <unistd.h>

namespace {
using namespace vf;
using model::kSec;
using model::Model;

constexpr int64_t kStart = 1700000000LL * kSec;

double real_now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}

std::string scratch() {
  auto s = getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}

// free when asked; ports of the ephemeral range
int free_port() {
  int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a);
  socklen_t l = sizeof a;
  getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
  close(fd);
  return ntohs(a.sin_port);
}
bool have_v6() {
  static bool ok = [] {
    int fd = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    if (fd < 0) return false;
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    bool r = bind(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
    close(fd);
    return r;
  }();
  return ok;
}

struct Client {
  int fd = -1;
  ~Client() {
    if (fd >= 0) close(fd);
  }
  bool udp4(int port) {
    fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    a.sin_port = htons(static_cast<uint16_t>(port));
    return connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
  }
  bool udp6(int port) {
    fd = socket(AF_INET6, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_in6 a{};
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
    a.sin6_port = htons(static_cast<uint16_t>(port));
    return connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
  }
  bool local(const std::string& path) {
    fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
    sockaddr_un a{};
    a.sun_family = AF_UNIX;
    strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
    return connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0;
  }
  bool send(const std::string& s) { return ::send(fd, s.data(), s.size(), MSG_NOSIGNAL) == static_cast<ssize_t>(s.size()); }
};

std::string bytes(Ctx& c, size_t n, bool lines_too) {
  std::string s;
  s.reserve(n);
  uint64_t x = c.draw(0) | 1;
  auto head = std::min<size_t>(n, 24);
  for (size_t i = 0; i < head; ++i) s += static_cast<char>(1 + c.draw(255));
  while (s.size() < n) {
    x = x * 6364136223846793005ULL + 1442695040888963407ULL;
    auto b = static_cast<char>(x >> 56);
    if (b == 0 || (!lines_too && b == '\n')) b = 'z';
    s += b;
  }
  return s;
}

// the receivers by themselves, driven by hand: one datagram in, one call out
void receivers(Ctx& c) {
  asio::io_context io;
  std::vector<std::string> got;
  bool complain = c.chance(1, 4);
  auto handler = [&](char* b) -> std::optional<std::string> {
    if (*b != '\0') got.emplace_back(b);
    return complain ? std::optional<std::string>("not today") : std::nullopt;
  };
  enum { V4, V6, Unix } kind = static_cast<decltype(kind)>(c.weighted({3, have_v6() ? 2u : 0u, 4}));
  std::unique_ptr<spectatord::UdpServer> udp;
  std::unique_ptr<spectatord::LocalServer> local;
  // the memory behind the receiver belongs to somebody else
  std::string path = scratch() + "/s" + std::to_string(getpid());
  int port = 0;
  if (kind == Unix) {
    unlink(path.c_str());
    local = std::make_unique<spectatord::LocalServer>(io, path, handler);
    local->Start();
  } else {
    for (int i = 0;; ++i) {
      port = free_port();
      try {
        udp = std::make_unique<spectatord::UdpServer>(io, kind == V4, port, handler);
        break;
      } catch (const std::exception& e) {
        if (i == 20) c.fail(std::string("no receiver: ") + e.what());
      }
    }
    udp->Start();
  }
  Client a;
  c.check(kind == Unix ? a.local(path) : kind == V4 || c.flip() ? a.udp4(port) : a.udp6(port), "cannot connect");
  int one = 1 << 20;
  setsockopt(a.fd, SOL_SOCKET, SO_SNDBUF, &one, sizeof one);
  size_t max = kind == Unix ? 140000 : 65507;
  auto rounds = c.range(1, 6);
  size_t biggest = 0;
  for (int64_t i = 0; i < rounds; ++i) {
    Ctx::Span sp(c);
    std::vector<std::string> sent;
    auto n = c.range(1, 3);
    for (int64_t k = 0; k < n; ++k) {
      size_t len;
      if (c.chance(1, 8)) {  // one without a line
        c.check(a.send(""), "cannot send an empty datagram");
        c.label("an empty datagram before others");
      }
      switch (c.weighted({6, 2, 3})) {
        case 0:
          len = static_cast<size_t>(c.size(1, 3000));
          break;
        case 1:
          len = static_cast<size_t>(c.range(1, static_cast<int64_t>(max)));
          break;
        default:
          len = static_cast<size_t>(std::min<int64_t>(static_cast<int64_t>(max), c.pick(std::vector<int64_t>{65507, 65506, 65534, 65535, 65536, 65537, 32768, 4096, 8192, 1472, 140000})));
      }
      auto s = bytes(c, len, true);
      biggest = std::max(biggest, len);
      c.check_f(a.send(s), [&] { return "cannot send " + std::to_string(len) + " bytes: " + strerror(errno); });
      sent.push_back(s);
    }
    auto t0 = real_now();
    auto before = got.size();
    while (got.size() < before + sent.size() && real_now() < t0 + 5) {
      if (io.poll() == 0) usleep(50);
      io.restart();
    }
    io.poll();
    c.trace([&](auto& os) {
      os << (kind == Unix ? "unix" : kind == V4 ? "udp4" : "udp6") << " datagrams of";
      for (auto& s : sent) os << " " << s.size();
      os << " bytes";
    });
    c.check_f(got.size() == before + sent.size(), [&] {
      return std::to_string(sent.size()) + " datagrams sent, " + std::to_string(got.size() - before) + " handled";
    });
    for (size_t k = 0; k < sent.size(); ++k) {
      auto& g = got[before + k];
      auto& w = sent[k];
      if (w.size() <= 65535) {
        c.check_f(g == w, [&] {
          size_t d = 0;
          while (d < g.size() && d < w.size() && g[d] == w[d]) ++d;
          return "a datagram of " + std::to_string(w.size()) + " bytes arrived as " + std::to_string(g.size()) + " bytes, the first difference at " + std::to_string(d);
        });
      } else {
        // too long for the protocol: cut, but nothing made up
        c.check_f(g.size() <= w.size() && w.compare(0, g.size(), g) == 0, [&] { return "a datagram of " + std::to_string(w.size()) + " bytes arrived as something else"; });
        c.label("longer than the buffer");
      }
    }
  }
  c.label(kind == Unix ? "unix receiver" : kind == V4 ? "udp4 receiver" : "udp6 receiver");
  c.nontrivial(got.size() >= 2 || biggest > 60000);
  local.reset();
  udp.reset();
  unlink(path.c_str());
}

struct Feed {
  std::vector<std::string> datagrams;
  size_t good = 0, bad = 0;
};

double counter(spectator::Registry& r, const char* name) {
  for (auto k : r.Counters())
    if (k->MeterId().GetTags().size() == 0 && k->MeterId().Name() == spectator::intern_str(name)) return k->Count();
  return 0;
}

// the whole server on three sockets, with senders of their own
void whole(Ctx& c) {
  vclock_set(kStart);
  TestRegistry r(config(true, 200), null_logger());
  Model m;
  m.now = kStart;
  m.gauge_ttl = 0;
  m.age_limit = 200;
  bool v4 = !have_v6() || c.flip(), with_statsd = c.chance(3, 4), with_local = c.chance(3, 4);
  Feed feeds[3];
  size_t good = 0, bad = 0;
  for (int s = 0; s < 3; ++s) {
    if ((s == 1 && !with_statsd) || (s == 2 && !with_local)) continue;
    Ctx::Span sp(c);
    auto& f = feeds[s];
    lines::Pool pool;
    lines::StatsdPool spool;
    auto n = c.range(1, 5);
    for (int64_t i = 0; i < n; ++i) {
      auto p = std::string(1, "usl"[s]) + std::to_string(i) + ".";
      if (s == 1) {
        lines::StatsdPool one;
        auto id = lines::statsd_id(c, &one, false);
        id.name = p + id.name;
        spool.ids.push_back(id);
      } else {
        auto id = gen::raw_id(c, ":,\n", "=:,\n", ":,\n", 40, 14, false);
        id.name = p + id.name;
        pool.ids.push_back(id);
      }
    }
    auto n_dg = c.range(1, 25);
    for (int64_t i = 0; i < n_dg; ++i) {
      Ctx::Span sp2(c);
      std::string dg;
      auto nl = c.range(1, 4);
      for (int64_t k = 0; k < nl; ++k) {
        // pools are full, so that no other ids are made
        char kind;
        std::string l;
        if (c.chance(1, 10)) {
          l = s == 1 ? "x:1|q" : c.pick({"q:a:1", "c:a", "nonsense"});
          ++f.bad;
        } else if (s == 1) {
          lines::StatsdPool full = spool;
          while (full.ids.size() < 10) full.ids.push_back(spool.ids[full.ids.size() % spool.ids.size()]);
          l = lines::statsd_line(c, &full, &m, &kind);
          ++f.good;
        } else {
          lines::Pool full = pool;
          while (full.ids.size() < 12) full.ids.push_back(pool.ids[full.ids.size() % pool.ids.size()]);
          l = lines::line(c, &full, &m, &kind);
          ++f.good;
        }
        if (!dg.empty()) dg += "\n";
        dg += l;
      }
      f.datagrams.push_back(dg);
      if (c.chance(1, 16)) f.datagrams.emplace_back();
    }
    good += f.good;
    bad += f.bad;
  }
  auto dir = scratch() + "/d" + std::to_string(getpid());
  auto path = dir + "/sock";
  bool stale = c.flip();
  if (stale) {
    mkdir(dir.c_str(), 0755);
    FILE* f = fopen(path.c_str(), "w");
    if (f) fclose(f);
  } else {
    unlink(path.c_str());
    rmdir(dir.c_str());
  }
  const mode_t mask = stale ? 022 : c.pick(std::vector<mode_t>{022, 002, 027, 0});
  umask(mask);
  int port = 0, sport = 0;
  std::unique_ptr<spectatord::Server> srv;
  std::thread t;
  std::atomic<bool> ended{false};
  std::string error, wrong;
  Client cl[3];
  for (int attempt = 0;; ++attempt) {
    port = free_port();
    do sport = free_port();
    while (sport == port);
    srv = std::make_unique<spectatord::Server>(v4, port, with_statsd ? std::optional<int>(sport) : std::nullopt,
                                               with_local ? std::optional<std::string>(path) : std::nullopt, &r);
    ended = false;
    error.clear();
    t = std::thread([&] {
      try {
        srv->Start();
      } catch (const std::exception& e) {
        error = e.what();
        srv->Stop();
      }
      ended = true;
    });
    // up when it handles a line; the line has no effect of its own
    Client probe;
    if (v4 || c.flip())
      probe.udp4(port);
    else
      probe.udp6(port);
    auto before = counter(r, "spectatord.parsedCount");
    auto t0 = real_now();
    bool up = false;
    size_t probes = 0;
    while (!ended && real_now() < t0 + 20) {
      if (probe.send("c:probe:0")) {
        // a refused datagram shows at the next send; only one is ever in the queue
        ++probes;
        auto t1 = real_now();
        while (real_now() < t1 + 0.02 && counter(r, "spectatord.parsedCount") == before) usleep(100);
      }
      if (counter(r, "spectatord.parsedCount") > before) {
        up = true;
        break;
      }
      usleep(200);
    }
    if (up && with_local) {
      while (!cl[2].local(path) && real_now() < t0 + 20) {
        close(cl[2].fd);
        cl[2].fd = -1;
        usleep(200);
      }
      struct stat st {};
      // told below, when the server has been stopped
      if (stat(path.c_str(), &st) != 0 || !S_ISSOCK(st.st_mode))
        wrong = "there is no socket at the path";
      else if ((st.st_mode & 0222) != 0222)
        wrong = "not everybody may write to the socket: mode " + std::to_string(st.st_mode & 0777);
      // a directory made for it may be entered by whom the umask lets
      if (!stale && (stat(dir.c_str(), &st) != 0 || (st.st_mode & 0111) != (0111 & ~mask)))
        wrong = "the directory of the socket may not be entered: mode " + std::to_string(st.st_mode & 0777) + " with umask " + std::to_string(mask);
    }
    if (up) {
      usleep(2000);  // further probes on their way
      break;
    }
    t.join();
    c.check_f(!error.empty() && attempt < 20, [&] { return "the server does not answer: " + error; });
    error.clear();
  }
  cl[0].udp4(port);
  if (with_statsd) {
    if (v4 || c.flip())
      cl[1].udp4(sport);
    else
      cl[1].udp6(sport);
  }
  // all sockets are served?
  auto settle = [&] {
    double last = -1;
    for (int i = 0; i < 100; ++i) {
      auto x = counter(r, "spectatord.parsedCount");
      if (x == last) break;
      last = x;
      usleep(1000);
    }
    return last;
  };
  if (with_statsd) {  // up to the statsd port, too
    auto x = counter(r, "spectatord.parsedCount");
    auto t1 = real_now();
    while (counter(r, "spectatord.parsedCount") == x && real_now() < t1 + 20) {
      cl[1].send("probe:0|c");
      auto t2 = real_now();
      while (real_now() < t2 + 0.02 && counter(r, "spectatord.parsedCount") == x) usleep(100);
    }
  }
  auto parsed0 = settle();
  auto bad0 = counter(r, "spectatord.parseErrors");
  std::vector<std::thread> senders;
  std::atomic<bool> send_failed{false};
  for (int s = 0; s < 3; ++s)
    senders.emplace_back([&, s] {
      for (auto& d : feeds[s].datagrams)
        if (!cl[s].send(d)) send_failed = true;
    });
  for (auto& x : senders) x.join();
  auto t0 = real_now();
  auto done = [&] {
    return counter(r, "spectatord.parsedCount") - parsed0 + counter(r, "spectatord.parseErrors") - bad0;
  };
  while (done() < static_cast<double>(good + bad) && real_now() < t0 + 10) usleep(200);
  auto t1 = real_now();
  kill(getpid(), SIGTERM);
  while (!ended && real_now() < t1 + 20) usleep(200);
  c.check(ended.load(), "the server does not stop");
  t.join();
  c.check_f(error.empty(), [&] { return "the server ended with an exception: " + error; });
  c.check_f(wrong.empty(), [&] { return wrong; });
  c.check(!send_failed.load(), "a datagram could not be sent");
  c.trace([&](auto& os) {
    for (int s = 0; s < 3; ++s)
      for (auto& d : feeds[s].datagrams) os << (s == 0 ? "udp " : s == 1 ? "statsd " : "unix ") << quote(d) << "; ";
  });
  auto parsed = counter(r, "spectatord.parsedCount") - parsed0, errors = counter(r, "spectatord.parseErrors") - bad0;
  c.check_f(parsed == static_cast<double>(good), [&] { return dstr(parsed) + " lines parsed of " + std::to_string(good) + " sent"; });
  c.check_f(errors == static_cast<double>(bad), [&] { return dstr(errors) + " parse errors of " + std::to_string(bad) + " bad lines sent"; });
  model::Report got;
  for (auto& e : report(r.Measurements()))
    if (e.first.rfind("spectator", 0) != 0) got.push_back(e);
  auto d = model::diff(m.measure(), got);
  c.check_f(d.empty(), [&] { return "reported measurements differ from the meaning of the lines:\n" + d; });
  unlink(path.c_str());
  rmdir(dir.c_str());
  c.label("whole server");
  c.nontrivial(good >= 2);
}

Reg c05{{"C05",
         "a case is either a receiver (UDP on IPv4, UDP on IPv6 with senders of both families, or unix) driven by hand with 1 to 18 datagrams of 1 to 140000 arbitrary bytes, concentrated at the limits of the "
         "protocol and of the buffer, or a whole server (UDP, statsd and unix sockets in any combination, stale socket files) with three concurrent senders of good and bad lines, stopped by SIGTERM. "
         "Oracle: each datagram of up to 65535 bytes is handled exactly once, in order and byte for byte, whatever came before; longer ones are cut; the effects and counts of all lines equal the model's. "
         "Non-trivial: at least two datagrams, or one of more than 60000 bytes.",
         12800, 51200,
         [](Ctx& c) {
           if (c.chance(1, 12))
             whole(c);
           else
             receivers(c);
         },
         false, false, 8, 120, 60, 700, [] { quiet_logs(); },
         {"the sockets are on the loopback interface and are not overloaded", "datagrams without NUL bytes"}}};

}  // namespace
