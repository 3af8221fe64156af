// Stand-in for GMLC-TDC/containers (submodule not available offline).
#pragma once
#include <type_traits>

/** hashing of a type is cheap (arithmetic or specialized by the user)*/
template<class T>
struct is_easily_hashable {
    static constexpr bool value = std::is_arithmetic<T>::value || std::is_pointer<T>::value;
};
enum class reference_stability : int { unstable = 0, stable = 1 };
struct no_search_type {};
constexpr no_search_type no_search{};
namespace gmlc::containers {
using ::is_easily_hashable;
using ::no_search;
using ::no_search_type;
using ::reference_stability;
}  // namespace gmlc::containers
