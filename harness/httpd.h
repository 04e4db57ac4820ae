// A scripted HTTP server on the loopback interface.
#pragma once
#include "engine.h"
#include "vclock.h"

#include <arpa/inet.h>
#include <atomic>
#include <functional>
#include <mutex>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <strings.h>
#include <sys/socket.h>
#include <thread>
#include <unistd.h>

namespace vf {

struct HttpReq {
  std::string method, target, body;
  std::vector<std::pair<std::string, std::string>> headers;
  bool complete = false;
  int64_t at = 0;  // when it came, by the virtual clock
  const std::string* header(const char* k) const {
    for (auto& h : headers)
      if (strcasecmp(h.first.c_str(), k) == 0) return &h.second;
    return nullptr;
  }
  size_t count(const char* k) const {
    size_t n = 0;
    for (auto& h : headers) n += strcasecmp(h.first.c_str(), k) == 0;
    return n;
  }
};

struct HttpRep {
  enum Kind { Answer, Close, Stall } kind = Answer;
  int status = 200;
  std::vector<std::string> headers;  // whole lines, without the line end
  std::string body;
  bool chunked = false;
};

// serves one connection after the other; the script decides
class HttpServer {
 public:
  using Script = std::function<HttpRep(const HttpReq&)>;

  HttpServer() {
    fd_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    sockaddr_in a{};
    a.sin_family = AF_INET;
    a.sin_addr.s_addr = htonl(INADDR_LOOPBACK);
    if (bind(fd_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0 || listen(fd_, 128) != 0) abort();
    socklen_t l = sizeof a;
    getsockname(fd_, reinterpret_cast<sockaddr*>(&a), &l);
    port_ = ntohs(a.sin_port);
    // bound but not listening: connections are refused for as long as we live
    refuse_ = socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0);
    a.sin_port = 0;
    if (bind(refuse_, reinterpret_cast<sockaddr*>(&a), sizeof a) != 0) abort();
    getsockname(refuse_, reinterpret_cast<sockaddr*>(&a), &l);
    refused_port_ = ntohs(a.sin_port);
    std::thread([this] { loop(); }).detach();
  }
  int port() const { return port_; }
  int refused_port() const { return refused_port_; }
  // the script of the current case; the requests so far are forgotten
  void start(Script s) {
    std::lock_guard<std::mutex> g(m_);
    script_ = std::move(s);
    requests_.clear();
  }
  std::vector<HttpReq> requests() {
    std::lock_guard<std::mutex> g(m_);
    return requests_;
  }

 private:
  int fd_, refuse_, port_, refused_port_;
  std::mutex m_;
  Script script_;
  std::vector<HttpReq> requests_;

  static bool fill(int fd, std::string* b) {
    char buf[65536];
    auto n = recv(fd, buf, sizeof buf, 0);
    if (n <= 0) return false;
    b->append(buf, static_cast<size_t>(n));
    return true;
  }
  static void put(int fd, const std::string& s) {
    size_t at = 0;
    while (at < s.size()) {
      auto n = send(fd, s.data() + at, s.size() - at, MSG_NOSIGNAL);
      if (n <= 0) return;
      at += static_cast<size_t>(n);
    }
  }
  static std::string trim(const std::string& s) {
    auto a = s.find_first_not_of(" \t");
    if (a == std::string::npos) return "";
    return s.substr(a, s.find_last_not_of(" \t") - a + 1);
  }
  static HttpReq read(int fd) {
    HttpReq r;
    std::string b;
    size_t e;
    while ((e = b.find("\r\n\r\n")) == std::string::npos)
      if (!fill(fd, &b)) return r;
    size_t at = 0, n = 0;
    while (at < e) {
      auto nl = b.find("\r\n", at);
      auto line = b.substr(at, nl - at);
      at = nl + 2;
      if (n++ == 0) {
        auto s1 = line.find(' '), s2 = line.rfind(' ');
        r.method = line.substr(0, s1);
        r.target = line.substr(s1 + 1, s2 - s1 - 1);
      } else {
        auto colon = line.find(':');
        r.headers.emplace_back(line.substr(0, colon), trim(line.substr(colon + 1)));
      }
    }
    b.erase(0, e + 4);
    auto len = r.header("Content-Length");
    size_t want = len ? strtoull(len->c_str(), nullptr, 10) : 0;
    auto expect = r.header("Expect");
    if (expect && b.size() < want) put(fd, "HTTP/1.1 100 Continue\r\n\r\n");
    while (b.size() < want)
      if (!fill(fd, &b)) break;
    r.complete = b.size() == want;
    r.body = b;
    return r;
  }
  void loop() {
    for (;;) {
      int c = accept4(fd_, nullptr, nullptr, SOCK_CLOEXEC);
      if (c < 0) continue;
      int one = 1;
      setsockopt(c, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
      auto req = read(c);
      req.at = vnow();
      HttpRep rep;
      if (!req.method.empty()) {
        std::lock_guard<std::mutex> g(m_);
        requests_.push_back(req);
        if (script_) rep = script_(req);
      } else {
        rep.kind = HttpRep::Close;
      }
      if (rep.kind == HttpRep::Answer) {
        std::string o = "HTTP/1.1 " + std::to_string(rep.status) + " X\r\n";
        for (auto& h : rep.headers) o += h + "\r\n";
        if (rep.chunked) {
          o += "Transfer-Encoding: chunked\r\n\r\n";
          char b[32];
          for (size_t at = 0; at < rep.body.size();) {
            auto n = std::min<size_t>(rep.body.size() - at, 1 + (at * 7 + 3) % 50);
            snprintf(b, sizeof b, "%zx\r\n", n);
            o += b + rep.body.substr(at, n) + "\r\n";
            at += n;
          }
          o += "0\r\n\r\n";
        } else {
          o += "Content-Length: " + std::to_string(rep.body.size()) + "\r\n\r\n" + rep.body;
        }
        put(c, o);
        // the client closes first, so that nothing is lost to a reset
        pollfd p{c, POLLIN, 0};
        poll(&p, 1, 5);
      } else if (rep.kind == HttpRep::Stall) {
        // until the client gives up
        char b;
        while (recv(c, &b, 1, 0) > 0) {
        }
      }
      close(c);
    }
  }
};

}  // namespace vf
