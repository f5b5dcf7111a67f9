#pragma once
// Elements for tuples: distinct types that carry any value and give it up when
// moved from, and an empty one.
#include "vf.hpp"

#include <array>
#include <optional>
#include <compare>
#include <concepts>
#include <cstdint>
#include <string_view>
#include <tuple>
#include <type_traits>

#ifdef VF_GCC_BRANCH
// the branch for compilers without these builtins
#define __has_builtin(x) 0
#endif
#include <stdx/tuple.hpp>
#include <stdx/tuple_algorithms.hpp>
#include <stdx/tuple_destructure.hpp>

using u32 = std::uint32_t;
constexpr u32 LOST = 0xdeadbeef;

template <int K> struct box {
    u32 v;
    constexpr explicit box(u32 x) : v{x} {}
    constexpr box(box const &) = default;
    constexpr box(box &&o) : v{o.v} { o.v = LOST; }
    constexpr box &operator=(box const &) = default;
    constexpr box &operator=(box &&o) {
        v = o.v;
        o.v = LOST;
        return *this;
    }
    friend constexpr bool operator==(box const &a, box const &b) {
        return a.v == b.v;
    }
    friend constexpr auto operator<=>(box const &a, box const &b) {
        return a.v <=> b.v;
    }
};
using A = box<0>;
using B = box<1>;
using C = box<2>;
struct nothing {
    friend constexpr bool operator==(nothing, nothing) { return true; }
    friend constexpr auto operator<=>(nothing, nothing) {
        return std::strong_ordering::equal;
    }
};
// values that differ from LOST
inline u32 some() {
    u32 const v = vf::any<u32>();
    vf_assume(v != LOST);
    return v;
}

// what was called, in order
struct tape {
    static inline u32 at[16];
    static inline u32 n = 0;
    static void put(u32 v) {
        if (n < 16) {
            at[n] = v;
        }
        ++n;
    }
    template <typename... Vs> static bool is(Vs... vs) {
        u32 const want[]{static_cast<u32>(vs)..., 0};
        bool ok = n == sizeof...(Vs);
        vf::each<sizeof...(Vs)>(
            [&](std::size_t i) { ok = ok and at[i] == want[i]; });
        return ok;
    }
    static void clear() { n = 0; }
};
// an operation that tells its arguments apart (and their order)
inline u32 mix(u32 a, u32 b) { return a * 31u + (b ^ (b >> 7)); }

template <typename T, typename... Es> constexpr bool is_tuple_of = std::is_same_v<std::remove_cvref_t<T>, stdx::tuple<Es...>>;
