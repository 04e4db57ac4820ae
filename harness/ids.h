// Conversions between the program's ids and the model's.
#pragma once
#include "engine.h"
#include "model.h"

#include "spectator/measurement.h"

namespace vf {

inline std::string id_str(const spectator::Id& id) {
  model::MId m;
  m.name = id.Name().Get();
  for (const auto& t : id.GetTags()) m.tags[t.key.Get()] = t.value.Get();
  return m.str();
}

inline model::Report report(const std::vector<spectator::Measurement>& ms) {
  model::Report r;
  for (const auto& m : ms) r.emplace_back(id_str(m.id), m.value);
  return r;
}

inline spectator::Tags tags_of(const std::map<std::string, std::string>& t) {
  spectator::Tags tags;
  for (auto& kv : t) tags.add(std::string_view{kv.first}, std::string_view{kv.second});
  return tags;
}
inline spectator::Id id_of(const model::MId& m) {
  return spectator::Id{std::string_view{m.name}, tags_of(m.tags)};
}

}  // namespace vf
