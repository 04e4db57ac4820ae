// The spectatord program itself, as a process of an unprivileged user, with generated command lines.
#include "gen.h"
#include "httpd.h"
#include "ports.h"
#include "smile_dec.h"
#include "vclock.h"

#include <csignal>
#include <grp.h>
#include <sys/prctl.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <sys/xattr.h>
#include <time.h>

extern char** environ;

namespace {
using namespace vf;

HttpServer* http = nullptr;
int g_exe = -1;

double real_now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return static_cast<double>(t.tv_sec) + static_cast<double>(t.tv_nsec) / 1e9;
}
void nap(int us) {
  timespec t{0, us * 1000L};
  clock_nanosleep(CLOCK_MONOTONIC, 0, &t, nullptr);
}
template <class F>
bool wait_for(F f, double limit = 30) {
  auto end = real_now() + limit;
  while (!f()) {
    if (real_now() > end) return false;
    nap(1000);
  }
  return true;
}

constexpr uid_t kNobody = 65534;

std::string read_file(const std::string& name) {
  std::string s;
  int fd = open(name.c_str(), O_RDONLY | O_CLOEXEC);
  char b[4096];
  ssize_t n;
  while (fd >= 0 && (n = read(fd, b, sizeof b)) > 0) s.append(b, static_cast<size_t>(n));
  if (fd >= 0) close(fd);
  return s;
}

struct Process {
  pid_t pid = 0;
  std::string dir;  // of its own
  bool ended = false;
  int status = 0;

  explicit Process(const std::vector<std::string>& args, int freq_ms, int exp_ms) {
    static int k = 0;
    dir = scratch() + "/m" + std::to_string(getpid()) + "_" + std::to_string(k++);
    mkdir(dir.c_str(), 0755);
    (void)!chown(dir.c_str(), kNobody, kNobody);
    std::vector<std::string> env = {"PATH=/usr/bin:/bin",
                                    "ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99",
                                    "VF_FREQ_MS=" + std::to_string(freq_ms),
                                    "VF_EXP_MS=" + std::to_string(exp_ms),
                                    "VF_URI=" + url("/of-site"),
                                    "VF_EXTERNAL_URI=" + url("/external")};
    std::vector<char*> a, e;
    static char name[] = "spectatord";
    a.push_back(name);
    for (auto& s : args) a.push_back(const_cast<char*>(s.c_str()));
    a.push_back(nullptr);
    for (auto& s : env) e.push_back(const_cast<char*>(s.c_str()));
    e.push_back(nullptr);
    auto log = dir + "/log";
    int fd = open(log.c_str(), O_CREAT | O_WRONLY | O_APPEND | O_CLOEXEC, 0644);
    int in = open("/dev/null", O_RDONLY | O_CLOEXEC);
    pid = fork();
    if (pid == 0) {
      dup2(in, 0);
      dup2(fd, 1);
      dup2(fd, 2);
      // the daemon cannot harm what is not its own
      if (setgroups(0, nullptr) != 0 || setgid(kNobody) != 0 || setuid(kNobody) != 0) _exit(98);
      prctl(PR_SET_PDEATHSIG, SIGKILL);
      if (chdir(dir.c_str()) != 0) _exit(98);
      fexecve(g_exe, a.data(), e.data());
      _exit(98);
    }
    close(fd);
    close(in);
  }
  ~Process() {
    if (!ended) {
      kill(pid, SIGKILL);
      waitpid(pid, &status, 0);
    }
    for (auto f : {"/log", "/run/s", "/s"}) unlink((dir + f).c_str());
    rmdir((dir + "/run").c_str());
    rmdir(dir.c_str());
  }
  static std::string url(const std::string& path) { return "http://127.0.0.1:" + std::to_string(http->port()) + path; }
  bool over() {
    if (!ended && waitpid(pid, &status, WNOHANG) == pid) ended = true;
    return ended;
  }
  std::string log() const {
    auto s = read_file(dir + "/log");
    return s.size() > 3000 ? s.substr(0, 1500) + "\n...\n" + s.substr(s.size() - 1500) : s;
  }
};

// the address families at which a UDP port is bound, by the kernel's tables
int bound(int port) {
  int r = 0;
  char want[16];
  snprintf(want, sizeof want, ":%04X", port);
  for (int k = 0; k < 2; ++k) {
    FILE* f = fopen(k ? "/proc/net/udp6" : "/proc/net/udp", "re");
    if (!f) continue;
    char b[512];
    while (fgets(b, sizeof b, f)) {
      auto* colon = strchr(b, ':');  // after the number of the line
      colon = colon ? strchr(colon + 1, ':') : nullptr;
      if (colon && strncmp(colon, want, 5) == 0) r |= 1 << k;
    }
    fclose(f);
  }
  return r;
}

bool send_udp(int port, const std::string& s) {
  int fd = socket(AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(static_cast<uint16_t>(port));
  bool ok = sendto(fd, s.data(), s.size(), MSG_NOSIGNAL, reinterpret_cast<sockaddr*>(&a), sizeof a) == static_cast<ssize_t>(s.size());
  close(fd);
  return ok;
}
bool send_local(const std::string& path, const std::string& s) {
  int fd = socket(AF_UNIX, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  sockaddr_un a{};
  a.sun_family = AF_UNIX;
  strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
  bool ok = sendto(fd, s.data(), s.size(), MSG_NOSIGNAL, reinterpret_cast<sockaddr*>(&a), sizeof a) == static_cast<ssize_t>(s.size());
  close(fd);
  return ok;
}

// the answer of the admin server, or nothing
std::string admin_get(int port, const std::string& path) {
  int fd = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
  sockaddr_in a{};
  a.sin_family = AF_INET;
  a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  a.sin_port = htons(static_cast<uint16_t>(port));
  timeval tv{20, 0};
  setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
  std::string r;
  if (connect(fd, reinterpret_cast<sockaddr*>(&a), sizeof a) == 0) {
    auto q = "GET " + path + " HTTP/1.0\r\nHost: x\r\n\r\n";
    (void)!send(fd, q.data(), q.size(), MSG_NOSIGNAL);
    char b[65536];
    ssize_t n;
    while ((n = recv(fd, b, sizeof b, 0)) > 0) r.append(b, static_cast<size_t>(n));
  }
  close(fd);
  return r;
}

std::string flag(Ctx& c, const std::string& name, const std::string& value, std::vector<std::string>* args) {
  auto dash = c.chance(1, 4) ? "-" : "--";
  if (c.chance(1, 4)) {
    args->push_back(dash + name);
    args->push_back(value);
  } else {
    args->push_back(dash + name + "=" + value);
  }
  return value;
}
void bool_flag(Ctx& c, const std::string& name, bool value, std::vector<std::string>* args) {
  switch (c.draw(3)) {
    case 0: args->push_back(value ? "--" + name : "--no" + name); break;
    case 1: args->push_back("--" + name + "=" + (value ? "true" : "false")); break;
    default: args->push_back("--" + name + "=" + (value ? "1" : "0")); break;
  }
}

// ---- a command line that must be refused ---------------------------------------
void refused(Ctx& c) {
  Port main, admin;
  main.take();
  admin.take(true);
  std::vector<std::string> args;
  static const std::vector<const char*> ports = {"0", "65536", "-1", "abc", "", "1x", "4294967297", "1.5", "99999999999999999999"};
  static const std::vector<const char*> tags = {"a", "a=", "=b", "a=1,b", "a=1,", ",a=1", "a=1,,b=2", "a=1,b=", "a=1,=2", "=", ","};
  static const std::vector<const char*> ttls = {"abc", "5", "10x", ""};
  switch (c.draw(6)) {
    case 0: args = {"--port=" + std::string(c.pick(ports)), "--admin_port=" + std::to_string(admin.number)}; break;
    case 1: args = {"--port=" + std::to_string(main.number), "--admin_port=" + std::string(c.pick(ports))}; break;
    case 2: args = {"--port=" + std::to_string(main.number), "--admin_port=" + std::to_string(admin.number), "--statsd_port=" + std::string(c.pick(ports))}; break;
    case 3: args = {"--port=" + std::to_string(main.number), "--admin_port=" + std::to_string(admin.number), "--meter_ttl=" + std::string(c.pick(ttls))}; break;
    case 4: args = {"--port=" + std::to_string(main.number), "--admin_port=" + std::to_string(admin.number), "--unknown_flag=1"}; break;
    default: args = {"--port=" + std::to_string(main.number), "--admin_port=" + std::to_string(admin.number), "--common_tags=" + std::string(c.pick(tags))}; break;
  }
  args.push_back("--noenable_socket");
  c.trace([&](auto& os) {
    os << "spectatord";
    for (auto& a : args) os << " " << quote(a);
  });
  http->start([&](const HttpReq&) { return HttpRep{}; });
  Process p(args, 100, 1000);
  bool over = wait_for([&] { return p.over() || bound(main.number) != 0; }) && p.over();
  c.check_f(over, [&] { return "the program runs with a wrong command line:\n" + p.log(); });
  c.check_f(WIFEXITED(p.status) && WEXITSTATUS(p.status) == 1, [&] { return "the program ended with status " + std::to_string(p.status) + ":\n" + p.log(); });
  c.check(http->requests().empty(), "the program published something in spite of a wrong command line");
  c.label("refused");
  c.nontrivial(true);
}

// ---- a daemon ---------------------------------------------------------------------
void runs(Ctx& c) {
  Port main, sd, admin;
  main.take();
  sd.take();
  admin.take(true);
  std::vector<std::vector<std::string>> groups;  // in any order
  auto group = [&]() -> std::vector<std::string>* {
    groups.emplace_back();
    return &groups.back();
  };
  bool v4 = c.chance(1, 3), want_sd = c.flip(), want_local = c.flip();
  flag(c, "port", std::to_string(main.number), group());
  flag(c, "admin_port", std::to_string(admin.number), group());
  if (v4 || c.chance(1, 4)) bool_flag(c, "ipv4_only", v4, group());
  if (want_sd || c.chance(1, 4)) bool_flag(c, "enable_statsd", want_sd, group());
  if (want_sd || c.flip()) flag(c, "statsd_port", std::to_string(sd.number), group());
  if (!want_local || c.chance(1, 4)) bool_flag(c, "enable_socket", want_local, group());
  bool deep = c.flip();
  auto socket_path = std::string(deep ? "run/s" : "s");  // in its own directory
  flag(c, "socket_path", socket_path, group());
  // where to
  std::string target = "/of-site";
  enum { Site, Uri, External, Both } where = static_cast<decltype(where)>(c.weighted({2, 3, 2, 1}));
  if (where == Uri || where == Both) {
    target = "/path" + std::to_string(c.draw(100)) + (c.flip() ? "/update" : "");
    flag(c, "uri", Process::url(target), group());
  }
  if (where == External || where == Both) {
    bool_flag(c, "enable_external", true, group());
    if (where == External) target = "/external";
    if (c.flip()) flag(c, "metatron_dir", "/nowhere", group());
  } else if (c.chance(1, 4)) {
    bool_flag(c, "enable_external", false, group());
  }
  // tags
  std::map<std::string, std::string> common = {{"nf.app", "app-of-site"}, {"nf.region", "region-of-site"}};
  auto how = c.weighted({3, 3, 1, 1});
  bool status = true;
  if (how == 1 || how == 3) {
    common.clear();
    std::string text;
    auto n = c.range(1, 4);
    for (int64_t i = 0; i < n; ++i) {
      static const std::vector<const char*> keys = {"nf.app", "nf.cluster", "nf.region", "nf.asg", "k", "x_y-z"};
      static const std::vector<const char*> values = {"v", "app-main", "1", "a=b", "x.y_z", "=", "~^"};
      std::string k = c.pick(keys), v = c.pick(values);
      common[k] = v;  // the last one wins
      text += (text.empty() ? "" : ",") + k + "=" + v;
    }
    flag(c, "common_tags", text, group());
    for (auto& kv : common)
      for (auto& ch : kv.second)
        if (ch == '=') ch = '_';  // not a character of a tag value
  }
  if (how >= 2) {
    bool_flag(c, "no_common_tags", true, group());
    common.clear();
    status = false;
  }
  // meters
  bool short_ttl = c.flip();
  int64_t ttl_ms = 15 * 60 * 1000;
  if (short_ttl || c.chance(1, 3)) {
    ttl_ms = short_ttl ? c.range(200, 600) : c.range(60, 600) * 1000;
    auto text = c.flip() || ttl_ms % 1000 ? std::to_string(ttl_ms) + "ms" : ttl_ms % 60000 == 0 && c.flip() ? std::to_string(ttl_ms / 60000) + "m" : std::to_string(ttl_ms / 1000) + "s";
    flag(c, "meter_ttl", text, group());
  }
  int64_t limit = 1000, ages = c.range(0, 8);
  if (c.chance(2, 3)) {
    limit = c.range(0, 8);
    flag(c, "age_gauge_limit", std::to_string(limit), group());
  }
  for (auto f : {"verbose", "verbose_http"})
    if (c.chance(1, 4)) bool_flag(c, f, c.flip(), group());
  std::vector<std::string> args;
  while (!groups.empty()) {
    auto i = c.draw(groups.size());
    for (auto& a : groups[i]) args.push_back(a);
    groups.erase(groups.begin() + static_cast<long>(i));
  }
  int freq = static_cast<int>(c.range(50, 200)), exp = static_cast<int>(c.range(50, 300));
  int sig = c.flip() ? SIGTERM : SIGINT;
  c.trace([&](auto& os) {
    os << "publishing every " << freq << " ms, expiring every " << exp << " ms: spectatord";
    for (auto& a : args) os << " " << quote(a);
    os << "; then signal " << sig;
  });
  http->start([&](const HttpReq&) { return HttpRep{}; });
  Process p(args, freq, exp);
  auto path = p.dir + "/" + socket_path;
  struct stat st {};
  bool up = wait_for([&] { return p.over() || (bound(main.number) && (!want_sd || bound(sd.number)) && (!want_local || stat(path.c_str(), &st) == 0)); }) && !p.over();
  c.check_f(up, [&] { return "the daemon does not come up:\n" + p.log(); });
  c.check_f(bound(main.number) == (v4 ? 1 : 2), [&] { return "the port is bound for the wrong address family:\n" + p.log(); });
  if (want_sd) c.check(bound(sd.number) == (v4 ? 1 : 2), "the statsd port is bound for the wrong address family");

  // requests so far, decoded: what each published
  struct Published {
    std::string target;
    std::map<std::string, double> values;
    std::map<std::string, std::map<std::string, std::string>> tags;
  };
  std::vector<Published> pub;
  size_t done = 0;
  auto collect = [&] {
    auto rs = http->requests();
    for (; done < rs.size(); ++done) {
      Published q;
      q.target = rs[done].target;
      for (auto& m : decode_payload(c, rs[done].body)) {
        std::map<std::string, std::string> t(m.tags.begin(), m.tags.end());
        c.check(t.size() == m.tags.size(), "a tag twice");
        auto name = t["name"];
        t.erase("name");
        // tags of the meters of the check
        auto key = name;
        for (auto k : {"statistic", "which"})
          if (t.count(k)) key += std::string("|") + t[k];
        if (name.rfind("vf.", 0) == 0) {
          for (auto k : {"statistic", "which"}) t.erase(k);
          c.check_f(t == common, [&] {
            std::string s = "common tags of " + key + ":";
            for (auto& kv : t) s += " " + kv.first + "=" + kv.second;
            return s;
          });
        } else {
          for (auto& kv : common) c.check_f(t.count(kv.first) == 1 && t[kv.first] == kv.second, [&] { return "common tag " + kv.first + " of the daemon's own " + name; });
        }
        q.values[key] = m.value;
        q.tags[key] = t;
      }
      c.check_f(q.target == target, [&] { return "published to " + q.target + " instead of " + target; });
      pub.push_back(std::move(q));
    }
  };
  auto published = [&](const std::string& key) -> const Published* {
    collect();
    for (auto& q : pub)
      if (q.values.count(key)) return &q;
    return nullptr;
  };
  auto need = [&](const std::string& key, double value) -> const Published& {
    const Published* q = nullptr;
    bool ok = wait_for([&] { return p.over() || (q = published(key)) != nullptr; }) && !p.over();
    c.check_f(ok, [&] { return key + " was never published:\n" + p.log(); });
    if (value == value) c.check_f(q->values.at(key) == value, [&] { return key + " was published as " + std::to_string(q->values.at(key)); });
    return *q;
  };
  c.check(send_udp(main.number, "c:vf.main:3"), "the UDP port is closed");
  if (want_sd) c.check(send_udp(sd.number, "vf.statsd:4|c"), "the statsd port is closed");
  if (want_local) c.check(send_local(path, "c:vf.local:5"), "the unix socket is closed");
  need("vf.main|count", 3);
  if (want_sd) need("vf.statsd|count", 4);
  if (want_local) need("vf.local|count", 5);
  if (!want_sd) c.check(bound(sd.number) == 0, "the statsd port is open");
  if (!want_local) c.check(stat(path.c_str(), &st) != 0, "there is a unix socket");
  // the limit of age gauges
  if (status && limit > 0) need("spectatord.uptime|gauge", NAN);
  for (int64_t i = 0; i < ages; ++i) c.check(send_udp(main.number, "A:vf.age,which=" + std::to_string(i) + ":0"), "the UDP port is closed");
  c.check(send_udp(main.number, "g:vf.gauge:7"), "the UDP port is closed");
  need("vf.gauge|gauge", 7);
  // what is published from now on was received before the tick
  auto tick = [&](const std::string& name) -> const Published& {
    c.check(send_udp(main.number, "c:" + name + ":1"), "the UDP port is closed");
    return need(name + "|count", 1);
  };
  {
    auto& q = tick("vf.tick1");
    int64_t n = 0;
    for (auto& v : q.values) n += v.first.rfind("vf.age|", 0) == 0;
    int64_t own = status && limit > 0;  // its uptime
    c.check_f(n == std::min(limit - own, ages), [&] { return std::to_string(n) + " of " + std::to_string(ages) + " age gauges were published, with a limit of " + std::to_string(limit); });
  }
  // the ttl
  if (short_ttl) {
    bool gone = wait_for([&] {
      auto m = admin_get(admin.number, "/metrics");
      return p.over() || (m.find(" 200 ") < 16 && m.find("vf.main") == std::string::npos);
    });
    c.check_f(gone && !p.over(), [&] { return "an idle counter did not expire:\n" + p.log(); });
  } else {
    tick("vf.tick2");
  }
  // own metrics, or not
  if (status) {
    need("spectatord.parsedCount|count", NAN);
    need("spectator.registrySize|totalAmount", NAN);
  } else {
    collect();
    for (auto& q : pub)
      for (auto& v : q.values) c.check_f(v.first.rfind("vf.", 0) == 0, [&] { return v.first + " was published without common tags"; });
  }
  // the admin server
  auto answer = admin_get(admin.number, "/metrics");
  c.check_f(answer.rfind("HTTP/1.", 0) == 0 && answer.find(" 200 ") < 16 && (short_ttl || (answer.find("vf.tick2") != std::string::npos && answer.find("vf.main") != std::string::npos)), [&] { return "the admin server answers: " + quote(answer.substr(0, 300)); });
  // the end
  kill(p.pid, sig);
  c.check_f(wait_for([&] { return p.over(); }), [&] { return "the daemon does not end:\n" + p.log(); });
  c.check_f(WIFEXITED(p.status) && WEXITSTATUS(p.status) == 0, [&] { return "the daemon ended with status " + std::to_string(p.status) + ":\n" + p.log(); });
  collect();
  c.label("daemon");
  c.label_if(want_sd, "statsd");
  c.label_if(want_local, "unix socket");
  c.label_if(v4, "IPv4 only");
  c.label_if(short_ttl, "short ttl");
  c.label_if(ages > limit, "more age gauges than allowed");
  c.label_if(!status, "no common tags");
  c.label_if(where == External, "external");
  c.nontrivial(true);
}

void init() {
  http = new HttpServer;
  chmod(scratch().c_str(), 0711);
  g_exe = open(getenv("VF_MAIN_BIN"), O_RDONLY | O_CLOEXEC);
  if (g_exe < 0) abort();
}

Reg c30{{"C30",
         "A case is a command line of the built program: ports, address family, statsd, unix socket, where to publish (site, --uri, --enable_external), common tags (of the site, given, none), meter ttl, limit of age gauges and "
         "verbosity, in any order and spelling, or one that is wrong. The program runs as an unprivileged process, gets lines through every transport, publishes to a scripted aggregator, is asked by its admin port and "
         "ended by SIGTERM or SIGINT. Oracle: every flag has its documented effect and nothing else; the program ends with status 0; a wrong command line is refused with status 1 before anything is published. "
         "Non-trivial: every case.",
         400, 6000, [](Ctx& c) { c.chance(1, 6) ? refused(c) : runs(c); }, false, false, 8, 120, 70, 800, init,
         {"the site's configuration is one of the check", "--debug and its fixed aggregator are not tried"}}};
}  // namespace
