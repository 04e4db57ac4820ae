#pragma once
#include "regtools.h"

#include "server/spectatord.h"

namespace vf {

struct TestServer : spectatord::Server {
  explicit TestServer(spectator::Registry* r) : spectatord::Server(true, 0, std::nullopt, std::nullopt, r) {}
  using spectatord::Server::parse;
  using spectatord::Server::parse_statsd;
  // the datagram as the socket code hands it over: NUL terminated, mutable; nothing behind the NUL can be touched
  static std::unique_ptr<char[]> exact(const std::string& s) {
    auto b = std::make_unique<char[]>(s.size() + 1);
    std::memcpy(b.get(), s.c_str(), s.size() + 1);
    return b;
  }
  std::optional<std::string> feed(const std::string& s) {
    auto b = exact(s);
    return parse(b.get());
  }
  std::optional<std::string> feed_statsd(const std::string& s) {
    auto b = exact(s);
    return parse_statsd(b.get());
  }
};

}  // namespace vf
