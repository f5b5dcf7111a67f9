#pragma once
// Bitset states: every value of the representation that a history of public
// operations can produce, including leftovers above the last bit.
#include "vf.hpp"

#include <stdx/bitset.hpp>

#include <array>
#include <limits>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <std::size_t N, typename E> struct spec {
    using type = stdx::bitset<N, E>;
    constexpr static std::size_t n = N;
    constexpr static std::size_t digits = std::numeric_limits<E>::digits;
    constexpr static std::size_t elems = (N + digits - 1) / digits;
    constexpr static std::size_t spare = elems * digits - N;
};

template <typename S> static typename S::type any_bitset() {
    typename S::type x{vf::any<u64>()};
    if constexpr (S::n > 64) {
        vf::each<S::n>([&](std::size_t i) {
            x.set(i, vf::any<bool>());
        });
        x <<= S::spare;
        vf::each<S::n>([&](std::size_t i) {
            x.set(i, vf::any<bool>());
        });
    } else if (vf::any<bool>()) {
        x.flip();
    }
    return x;
}

// bits of a bitset, read one by one
template <typename S> struct image {
    bool b[S::n];
    explicit image(typename S::type const &x) {
        vf::each<S::n>([&](std::size_t i) {
            b[i] = x[i];
        });
    }
};
