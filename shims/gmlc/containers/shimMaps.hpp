// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include "MapTraits.hpp"

#include <algorithm>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <optional>
#include <stdexcept>
#include <string>
#include <string_view>
#include <unordered_map>
#include <utility>
#include <vector>

namespace gmlc::containers::shim {
struct SvHash {
    using is_transparent = void;
    std::size_t operator()(std::string_view s) const noexcept
    {
        return std::hash<std::string_view>{}(s);
    }
};
template<class K>
struct lookup {
    using type = std::unordered_map<K, std::size_t>;
};
template<>
struct lookup<std::string> {
    using type = std::unordered_map<std::string, std::size_t, SvHash, std::equal_to<>>;
};
template<class K>
using lookup_t = typename lookup<K>::type;

template<class Map, class K>
std::optional<std::size_t> get(const Map& m, const K& k)
{
    auto f = m.find(k);
    return (f != m.end()) ? std::optional<std::size_t>(f->second) : std::nullopt;
}
template<class Map>
void dropIndex(Map& m, std::size_t index)
{
    for (auto it = m.begin(); it != m.end();) {
        if (it->second == index) {
            it = m.erase(it);
        } else {
            if (it->second > index) {
                --it->second;
            }
            ++it;
        }
    }
}
template<class V, reference_stability S>
using storage_t =
    std::conditional_t<S == reference_stability::stable, std::deque<V>, std::vector<V>>;
}  // namespace gmlc::containers::shim
