#pragma once
// Compile-time functions can be called at run time in this unit, so that they
// can be verified for any argument. The standard headers come first: they use
// the keyword in other ways.
#include <algorithm>
#include <array>
#include <atomic>
#include <bit>
#include <bitset>
#include <compare>
#include <concepts>
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iterator>
#include <limits>
#include <memory>
#include <new>
#include <numeric>
#include <optional>
#include <ranges>
#include <span>
#include <string>
#include <string_view>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>

#include <boost/mp11.hpp>

#define consteval constexpr
