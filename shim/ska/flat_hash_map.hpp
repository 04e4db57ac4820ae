// Stand-in for the one third-party header of spectatord that is not available
// offline (skarupke's flat_hash_map).  spectator/publisher.h only uses the
// std::unordered_map-compatible part of its interface: sized constructor,
// operator[], find, iteration, size.
#pragma once
#include <functional>
#include <unordered_map>
#include <utility>

namespace ska {
template <typename K, typename V, typename H = std::hash<K>,
          typename E = std::equal_to<K>,
          typename A = std::allocator<std::pair<const K, V>>>
using flat_hash_map = std::unordered_map<K, V, H, E, A>;
}  // namespace ska
