// A registry for tests.
#pragma once
#include "engine.h"
#include "ids.h"
#include "model.h"

#include "spectator/registry.h"
#include "util/logger.h"

#include <spdlog/sinks/null_sink.h>

namespace vf {

struct TestRegistry : spectator::Registry {
  using spectator::Registry::Registry;
  using spectator::Registry::remove_expired_meters;
};

inline std::shared_ptr<spdlog::logger> null_logger() {
  static auto l = [] {
    auto x = std::make_shared<spdlog::logger>("null", std::make_shared<spdlog::sinks::null_sink_mt>());
    x->set_level(spdlog::level::off);
    return x;
  }();
  return l;
}

// the program's own logger: never to the terminal
inline void quiet_logs(spdlog::level::level_enum lvl = spdlog::level::off) {
  auto l = spectatord::Logger();
  l->sinks().clear();
  l->sinks().push_back(std::make_shared<spdlog::sinks::null_sink_mt>());
  l->set_level(lvl);
  spdlog::set_level(lvl);
}

inline std::unique_ptr<spectator::Config> config(bool status = false, size_t age_limit = 1000) {
  auto cfg = std::make_unique<spectator::Config>();
  cfg->age_gauge_limit = age_limit;
  cfg->status_metrics_enabled = status;
  return cfg;
}

}  // namespace vf
