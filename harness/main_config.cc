// The configuration of the site, which the main program asks for: from the environment, so that
// a check can use its own aggregator and short intervals.
#include "spectator/config.h"

#include <cstdlib>

auto GetSpectatorConfig() -> std::unique_ptr<spectator::Config> {
  auto number = [](const char* k) { return atol(getenv(k)); };
  auto c = std::make_unique<spectator::Config>();
  c->common_tags = {{"nf.app", "app-of-site"}, {"nf.region", "region-of-site"}};
  c->read_timeout = absl::Seconds(20);
  c->connect_timeout = absl::Seconds(20);
  c->batch_size = 10000;
  c->frequency = absl::Milliseconds(number("VF_FREQ_MS"));
  c->expiration_frequency = absl::Milliseconds(number("VF_EXP_MS"));
  c->meter_ttl = absl::Minutes(15);
  c->age_gauge_limit = 1000;
  c->uri = getenv("VF_URI");
  c->external_uri = getenv("VF_EXTERNAL_URI");
  return c;
}
