// Port numbers for a daemon under test.
#pragma once
#include <cstdint>
#include <cstdlib>
#include <fcntl.h>
#include <netinet/in.h>
#include <string>
#include <sys/file.h>
#include <sys/socket.h>
#include <unistd.h>

namespace vf {

inline std::string scratch() {
  auto s = getenv("VF_SCRATCH");
  return s ? s : "/tmp";
}

// Ports outside the ephemeral range that no other process of this check uses:
// each is locked through a file for as long as the daemon lives.
struct Port {
  int number = 0, lock = -1;
  ~Port() { release(); }
  void release() {
    if (lock >= 0) close(lock);
    lock = -1;
  }
  void take(bool tcp = false) {
    release();
    static uint32_t next = static_cast<uint32_t>(getpid()) * 2654435761u;
    for (int i = 0; i < 20000; ++i) {
      number = 10000 + static_cast<int>((next += 7919) % 20000);
      lock = open((scratch() + "/port" + std::to_string(number)).c_str(), O_CREAT | O_RDWR | O_CLOEXEC, 0666);
      if (lock < 0) continue;
      bool ok = flock(lock, LOCK_EX | LOCK_NB) == 0;
      for (int k = 0; k < (tcp ? 4 : 2); ++k) {
        bool v4 = k % 2 == 0;
        if (!ok) break;
        int fd = socket(v4 ? AF_INET : AF_INET6, (k < 2 ? SOCK_DGRAM : SOCK_STREAM) | SOCK_CLOEXEC, 0);
        if (fd < 0) continue;
        sockaddr_in6 a{};
        a.sin6_family = v4 ? AF_INET : AF_INET6;
        a.sin6_port = htons(static_cast<uint16_t>(number));  // at the same place for both
        ok = bind(fd, reinterpret_cast<sockaddr*>(&a), v4 ? sizeof(sockaddr_in) : sizeof a) == 0;
        close(fd);
      }
      if (ok) return;
      release();
    }
    abort();
  }
};


}  // namespace vf
