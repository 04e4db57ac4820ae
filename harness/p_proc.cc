// What the daemon reads from the kernel: the limit of receive buffers, and the queues and drops of UDP ports.
#include "common.h"
#include "gen.h"

#include "server/local_server.h"
#include "server/proc_utils.h"
#include "server/udp_server.h"

#include <fcntl.h>
#include <linux/sock_diag.h>
#include <netinet/in.h>
#include <sys/socket.h>
#include <unistd.h>

namespace {
using namespace vf;

constexpr int kDefault = 16 * 1024 * 1024;

std::string scratch() {
  auto s = getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}
std::string file_name(int i) { return scratch() + "/proc" + std::to_string(getpid()) + "_" + std::to_string(i); }
void write_file(const std::string& name, const std::string& data) {
  int fd = open(name.c_str(), O_CREAT | O_TRUNC | O_WRONLY | O_CLOEXEC, 0644);
  size_t n = 0;
  while (n < data.size()) {
    auto k = write(fd, data.data() + n, data.size() - n);
    if (k <= 0) abort();
    n += static_cast<size_t>(k);
  }
  close(fd);
}
int lowest_fd() {
  int fd = dup(0);
  close(fd);
  return fd;
}

// ---- the limit of the receive buffers -----------------------------------------
// max_buffer_size() keeps its result for as long as the same pointer is passed
const char* other_path(const std::string& name) {
  static char a[2][512];
  static int k = 0;
  k ^= 1;
  strncpy(a[k], name.c_str(), sizeof a[k] - 1);
  return a[k];
}

void limit(Ctx& c) {
  auto name = file_name(0);
  std::string text;
  int want = kDefault;
  bool exists = true;
  switch (c.weighted({6, 2, 3, 1, 2})) {
    case 0: {
      want = static_cast<int>(c.flip() ? c.range(1, 4 << 20) : c.range(1, INT32_MAX));
      text = std::to_string(want) + (c.flip() ? "\n" : "");
      break;
    }
    case 1: exists = false; break;
    case 2: {  // not a number
      static const char* bad[] = {"", "\n", "abc\n", "12x\n", "1 2\n", "2147483648\n", "99999999999999999999\n", "0x10\n", "1.5\n", "-", "--1\n", "max\n"};
      text = bad[c.draw(std::size(bad))];
      break;
    }
    case 3: {  // spaces around
      want = static_cast<int>(c.range(1, INT32_MAX));
      text = std::string(c.draw(5), ' ') + std::to_string(want) + std::string(c.draw(5), c.flip() ? ' ' : '\n');
      break;
    }
    default: {  // large
      auto n = c.chance(1, 2) ? 4090 + c.draw(12) : c.draw(10000);
      bool spaces = c.flip();
      want = static_cast<int>(c.range(1, INT32_MAX));
      text = std::to_string(want);
      if (spaces && n <= 4000) {
        text += std::string(n, ' ');
      } else {
        text = std::string(n + 20, '7');
        want = kDefault;
      }
      break;
    }
  }
  c.trace([&](auto& os) { os << "limit file " << (exists ? quote(text.substr(0, 100)) : "absent") << " of " << text.size() << " bytes"; });
  if (exists)
    write_file(name, text);
  else
    unlink(name.c_str());
  int fd0 = lowest_fd();
  auto path = other_path(name);
  auto got = spectatord::max_buffer_size(path);
  c.check_f(got == want, [&] { return "the limit is " + std::to_string(got) + ", not " + std::to_string(want); });
  c.check(spectatord::max_buffer_size(path) == want, "the limit is different when read again");
  c.check(lowest_fd() == fd0, "a file is left open");
  unlink(name.c_str());
  c.label("limit");
  c.nontrivial(exists);
}

// ---- generated tables of UDP sockets -------------------------------------------
struct Row {
  int port;
  uint32_t tx, rx, drops;
};

void table(Ctx& c) {
  bool v6 = c.chance(1, 3);
  std::string text = "   sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode ref pointer drops             \n";
  std::vector<Row> rows;
  std::set<int> used;
  auto n = c.weighted({1, 6, 1}) == 1 ? c.range(1, 12) : c.range(0, 900);
  auto number = [&](uint32_t max) -> uint32_t {
    switch (c.weighted({3, 2, 2, 1})) {
      case 0: return 0;
      case 1: return static_cast<uint32_t>(c.draw(1000));
      case 2: return static_cast<uint32_t>(c.draw(uint64_t{max} + 1));
      default: return max - static_cast<uint32_t>(c.draw(3));
    }
  };
  int sl_width = c.flip() ? 5 : 4;
  for (int64_t i = 0; i < n; ++i) {
    Ctx::Span sp(c);
    Row r{};
    r.port = c.chance(1, 8) ? static_cast<int>(c.pick(std::vector<int64_t>{1, 10, 15, 16, 255, 4096, 65535, 1234})) : static_cast<int>(c.range(1, 65535));
    while (used.count(r.port)) r.port = r.port % 65535 + 1;
    used.insert(r.port);
    r.tx = number(UINT32_MAX);
    r.rx = number(UINT32_MAX);
    r.drops = number(UINT32_MAX);  // the kernel writes its 32 bits unsigned
    rows.push_back(r);
    auto addr = [&] {
      char b[40];
      if (v6)
        snprintf(b, sizeof b, "%08X%08X%08X%08X", number(UINT32_MAX), number(UINT32_MAX), number(UINT32_MAX), number(UINT32_MAX));
      else
        snprintf(b, sizeof b, "%08X", number(UINT32_MAX));
      return std::string(b);
    };
    char b[400];
    // as the kernel writes it
    int len = snprintf(b, sizeof b, "%*d: %s:%04X %s:%04X %02X %08X:%08X %02X:%08lX %08X %5u %8d %lu %d %s %u", sl_width,
                       static_cast<int>(c.draw(70000)), addr().c_str(), static_cast<unsigned>(r.port), addr().c_str(),
                       static_cast<unsigned>(c.draw(65536)), static_cast<unsigned>(c.draw(12)), r.tx, r.rx, 0u, 0ul, 0u,
                       number(UINT32_MAX), 0, static_cast<unsigned long>(number(UINT32_MAX)), 2, c.flip() ? "0000000000000000" : "ffff8f0e0a1b2c40", r.drops);
    text += b;
    if (!v6) text += std::string(static_cast<size_t>(std::max(0, 127 - len)), ' ');
    text += "\n";
  }
  auto name = file_name(1);
  bool cut = c.chance(1, 10);  // no end of line
  if (cut) text.pop_back();
  write_file(name, text);
  std::vector<int> ask;
  for (int i = 0; i < 6; ++i) ask.push_back(!rows.empty() && c.chance(3, 4) ? rows[c.draw(rows.size())].port : static_cast<int>(c.range(1, 65535)));
  c.trace([&](auto& os) {
    os << "table of " << rows.size() << " sockets, asked for";
    for (auto p : ask) os << " " << p;
    os << "\n" << text.substr(0, 3000);
  });
  int fd0 = lowest_fd();
  bool found = false;
  for (auto p : ask) {
    auto got = spectatord::udp_info(p, name.c_str());
    auto it = std::find_if(rows.begin(), rows.end(), [&](const Row& r) { return r.port == p; });
    c.check_f(got.has_value() == (it != rows.end()), [&] { return "port " + std::to_string(p) + (got ? " was found, but is not in the table" : " was not found"); });
    if (!got) continue;
    found = true;
    c.check_f(got->rx_queue_bytes == it->rx, [&] { return "port " + std::to_string(p) + " has a queue of " + std::to_string(it->rx) + " bytes, not " + std::to_string(got->rx_queue_bytes); });
    c.check_f(got->num_dropped == it->drops, [&] { return "port " + std::to_string(p) + " dropped " + std::to_string(it->drops) + " packets, not " + std::to_string(got->num_dropped); });
  }
  unlink(name.c_str());
  auto none = spectatord::udp_info(ask[0], name.c_str());
  c.check(!none.has_value(), "figures out of a file that does not exist");
  c.check(lowest_fd() == fd0, "a file is left open");
  c.label("table");
  c.label_if(text.size() > 65536, "large table");
  c.nontrivial(found && rows.size() > 1);
}

// ---- the kernel's own figures -----------------------------------------------------
void real(Ctx& c) {
  bool v6 = c.chance(1, 3);
  int fd = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  int out = socket(v6 ? AF_INET6 : AF_INET, SOCK_DGRAM | SOCK_CLOEXEC, 0);
  struct Close {
    int a, b;
    ~Close() {
      close(a);
      close(b);
    }
  } closer{fd, out};
  sockaddr_in6 a{};
  if (v6) {
    a.sin6_family = AF_INET6;
    a.sin6_addr = in6addr_loopback;
  } else {
    auto* a4 = reinterpret_cast<sockaddr_in*>(&a);
    a4->sin_family = AF_INET;
    a4->sin_addr.s_addr = htonl(INADDR_LOOPBACK);
  }
  socklen_t l = sizeof a;
  if (bind(fd, reinterpret_cast<sockaddr*>(&a), v6 ? sizeof(sockaddr_in6) : sizeof(sockaddr_in)) != 0) throw Discard{};
  getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
  int port = ntohs(v6 ? a.sin6_port : reinterpret_cast<sockaddr_in*>(&a)->sin_port);
  int size = static_cast<int>(c.range(1, 20000));
  setsockopt(fd, SOL_SOCKET, SO_RCVBUF, &size, sizeof size);
  if (connect(out, reinterpret_cast<sockaddr*>(&a), l) != 0) throw Discard{};
  auto n = c.range(0, 40);
  std::string data(c.draw(1500) + 1, 'x');
  for (int64_t i = 0; i < n; ++i) (void)!send(out, data.data(), data.size(), MSG_NOSIGNAL);
  auto take = c.range(0, n);
  char buf[2000];
  for (int64_t i = 0; i < take; ++i) (void)!recv(fd, buf, sizeof buf, MSG_DONTWAIT);
  c.trace([&](auto& os) { os << (v6 ? "IPv6" : "IPv4") << " socket with a buffer of " << size << " bytes, " << n << " datagrams of " << data.size() << " bytes, " << take << " taken"; });
  auto info = [&] { return spectatord::udp_info(port, v6 ? "/proc/net/udp6" : "/proc/net/udp"); };
  uint32_t m[SK_MEMINFO_VARS] = {};
  for (int i = 0;; ++i) {
    // read until nothing changes meanwhile
    uint32_t before[SK_MEMINFO_VARS] = {};
    l = sizeof before;
    getsockopt(fd, SOL_SOCKET, SO_MEMINFO, before, &l);
    auto got = info();
    l = sizeof m;
    getsockopt(fd, SOL_SOCKET, SO_MEMINFO, m, &l);
    if (memcmp(before, m, sizeof m) != 0 && i < 1000) continue;
    c.check(got.has_value(), "the socket was not found");
    // the kernel subtracts what it has freed but not yet accounted for
    bool ok = got->num_dropped == m[SK_MEMINFO_DROPS] && got->rx_queue_bytes >= 0 && got->rx_queue_bytes <= m[SK_MEMINFO_RMEM_ALLOC];
    if (take == 0) ok = ok && got->rx_queue_bytes == m[SK_MEMINFO_RMEM_ALLOC];
    c.check_f(ok, [&] {
      return "read " + std::to_string(got->rx_queue_bytes) + " bytes queued and " + std::to_string(got->num_dropped) + " dropped, but the kernel says " + std::to_string(m[SK_MEMINFO_RMEM_ALLOC]) +
             " and " + std::to_string(m[SK_MEMINFO_DROPS]);
    });
    break;
  }
  c.label("real socket");
  c.label_if(m[SK_MEMINFO_DROPS] > 0, "packets were dropped");
  c.nontrivial(m[SK_MEMINFO_DROPS] > 0 || m[SK_MEMINFO_RMEM_ALLOC] > 0);
}

// a receiver has the largest buffer that the system allows
void receiver(Ctx& c) {
  long max = 0;
  if (FILE* f = fopen("/proc/sys/net/core/rmem_max", "r")) {
    if (fscanf(f, "%ld", &max) != 1) max = 0;
    fclose(f);
  }
  if (max <= 0) throw Discard{};
  bool v4 = c.flip();
  c.trace([&](auto& os) { os << (v4 ? "IPv4" : "IPv6") << " receiver"; });
  asio::io_context io;
  int fd0 = 3;
  std::set<int> before;
  for (; fd0 < 256; ++fd0)
    if (fcntl(fd0, F_GETFD) >= 0) before.insert(fd0);
  std::unique_ptr<spectatord::UdpServer> s;
  try {
    s = std::make_unique<spectatord::UdpServer>(io, v4, 0, [](char*) { return std::optional<std::string>{}; });
  } catch (const std::exception&) {
    throw Discard{};  // no IPv6
  }
  int seen = 0;
  for (int fd = 3; fd < 256; ++fd) {
    int type = 0;
    socklen_t l = sizeof type;
    if (before.count(fd) || getsockopt(fd, SOL_SOCKET, SO_TYPE, &type, &l) != 0 || type != SOCK_DGRAM) continue;
    ++seen;
    int size = 0;
    l = sizeof size;
    getsockopt(fd, SOL_SOCKET, SO_RCVBUF, &size, &l);
    c.check_f(size == 2 * max, [&] { return "the receive buffer of the UDP port is " + std::to_string(size) + ", not twice rmem_max " + std::to_string(max); });
    sockaddr_in6 a{};
    l = sizeof a;
    getsockname(fd, reinterpret_cast<sockaddr*>(&a), &l);
    c.check(a.sin6_family == (v4 ? AF_INET : AF_INET6), "the address family of the UDP port");
  }
  c.check(seen == 1, "not one UDP socket");
  c.label("receiver");
  c.nontrivial(true);
}

Reg c24{{"C24",
         "A case is a limit file (numbers up to 2^31-1, text, large, absent), a table of 0 to 900 UDP sockets as the kernel writes it (IPv4 or IPv6) asked for ports in it and not in it, a real socket with datagrams queued and "
         "dropped, or a receiver. Oracle: the number in the file or 16 MiB; the queue and the drops written for that port or nothing; what the kernel says through getsockopt; the receive buffer is the system's maximum; "
         "no file stays open. Non-trivial: the file exists, the port is among several, something was queued or dropped.",
         24000, 500000,
         [](Ctx& c) {
           switch (c.weighted({8, 16, 4, 1})) {
             case 0: limit(c); break;
             case 1: table(c); break;
             case 2: real(c); break;
             default: receiver(c); break;
           }
         },
         false, true, 8, 60, 45, 700, [] { quiet_logs(); },
         {"limits are positive", "no two sockets of a table have the same port"}}};
}  // namespace
