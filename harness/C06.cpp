// bit_mask, rotations and smallest_uint.
#include "vf.hpp"

#ifdef VF_FALLBACK
#include "vf_nobit.hpp"
#endif
#include <stdx/bit.hpp>

#include <array>
#include <limits>
#include <type_traits>
#include <utility>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <typename T> constexpr int digits = std::numeric_limits<T>::digits;

template <typename T> static bool bit(T x, int i) {
    return ((x >> i) & 1u) != 0;
}
template <typename T, std::size_t N>
static bool bit(std::array<T, N> const &a, int i) {
    return bit(a[static_cast<std::size_t>(i / digits<T>)], i % digits<T>);
}

template <typename T> static void mask() {
    constexpr std::size_t n = sizeof(T) * 8;
    std::size_t msb = vf::below(n);
    std::size_t lsb = vf::upto(msb);
    T const m = stdx::bit_mask<T>(msb, lsb);
    T const f = stdx::bit_mask<T>(msb);
    std::size_t const i = vf::below(n);
    vf_assert(bit(m, static_cast<int>(i)) == (i >= lsb and i <= msb),
              "mask has exactly bits lsb to msb");
    vf_assert(bit(f, static_cast<int>(i)) == (i <= msb),
              "mask has exactly bits 0 to msb");
    vf_reach("mask");
}
VF_HARNESS(mask8) { mask<u8>(); }
VF_HARNESS(mask16) { mask<u16>(); }
VF_HARNESS(mask32) { mask<u32>(); }
VF_HARNESS(mask64) { mask<u64>(); }
VF_HARNESS(mask_a8x1) { mask<std::array<u8, 1>>(); }
VF_HARNESS(mask_a8x3) { mask<std::array<u8, 3>>(); }
VF_HARNESS(mask_a16x2) { mask<std::array<u16, 2>>(); }
VF_HARNESS(mask_a32x2) { mask<std::array<u32, 2>>(); }
VF_HARNESS(mask_a64x2) { mask<std::array<u64, 2>>(); }

// the ranges given as template arguments: every (msb, lsb) of 8 bits, a
// spread for the wider types
template <typename T, std::size_t M, std::size_t L> static void ct_one() {
    constexpr T m = stdx::bit_mask<T, M, L>();
    std::size_t const i = vf::below(sizeof(T) * 8);
    vf_assert(bit(m, static_cast<int>(i)) == (i >= L and i <= M),
              "constant mask has exactly bits lsb to msb");
}
template <typename T, std::size_t M, std::size_t... Ls>
static void ct_lsbs(std::index_sequence<Ls...>) {
    (ct_one<T, M, Ls>(), ...);
}
template <typename T, std::size_t... Ms>
static void ct_all(std::index_sequence<Ms...>) {
    (ct_lsbs<T, Ms>(std::make_index_sequence<Ms + 1>{}), ...);
}
template <typename T, std::size_t... Ms>
static void ct_some(std::index_sequence<Ms...>) {
    (ct_one<T, Ms, 0>(), ...);
    (ct_one<T, sizeof(T) * 8 - 1, Ms>(), ...);
    (ct_one<T, Ms, Ms>(), ...);
    (ct_one<T, Ms, Ms / 2>(), ...);
}
VF_HARNESS(ct_mask8) {
    ct_all<u8>(std::make_index_sequence<8>{});
    constexpr u8 all = stdx::bit_mask<u8>();
    constexpr u64 all64 = stdx::bit_mask<u64>();
    constexpr u32 low = stdx::bit_mask<u32, 4>();
    vf_assert(all == 0xff and all64 == ~u64{} and low == 0x1f,
              "default range arguments");
    vf_reach("constant masks");
}
VF_HARNESS(ct_mask16) {
    ct_some<u16>(std::make_index_sequence<16>{});
    vf_reach("constant masks");
}
VF_HARNESS(ct_mask32) {
    ct_some<u32>(std::make_index_sequence<32>{});
    vf_reach("constant masks");
}
VF_HARNESS(ct_mask64) {
    ct_some<u64>(std::make_index_sequence<64>{});
    vf_reach("constant masks");
}
VF_HARNESS(ct_mask_array) {
    ct_some<std::array<u8, 3>>(std::make_index_sequence<24>{});
    ct_some<std::array<u32, 2>>(std::make_index_sequence<64>{});
    vf_reach("constant masks");
}

template <typename T> static void rotate() {
    T x = vf::any<T>();
    int s = vf::any<int>();
    T const l = stdx::rotl(x, s);
    T const r = stdx::rotr(x, s);
    // n divides 2^32, so the shift may be reduced as an unsigned value
    unsigned const k = static_cast<unsigned>(s) % digits<T>;
    int i = static_cast<int>(vf::below(digits<T>));
    vf_assert(bit(l, static_cast<int>((static_cast<unsigned>(i) + k) %
                                      digits<T>)) == bit(x, i),
              "rotl moves bit i to i + s");
    vf_assert(bit(x, static_cast<int>((static_cast<unsigned>(i) + k) %
                                      digits<T>)) == bit(r, i),
              "rotr moves bit i + s to i");
    vf_reach("rotate");
}
VF_HARNESS(rotate8) { rotate<u8>(); }
VF_HARNESS(rotate16) { rotate<u16>(); }
VF_HARNESS(rotate32) { rotate<u32>(); }
VF_HARNESS(rotate64) { rotate<u64>(); }

VF_HARNESS(smallest) {
    vf_assert((std::is_same_v<stdx::smallest_uint_t<0>, u8>) and
                  (std::is_same_v<stdx::smallest_uint_t<1>, u8>) and
                  (std::is_same_v<stdx::smallest_uint_t<8>, u8>),
              "smallest_uint 8");
    vf_assert((std::is_same_v<stdx::smallest_uint_t<9>, u16>) and
                  (std::is_same_v<stdx::smallest_uint_t<16>, u16>),
              "smallest_uint 16");
    vf_assert((std::is_same_v<stdx::smallest_uint_t<17>, u32>) and
                  (std::is_same_v<stdx::smallest_uint_t<32>, u32>),
              "smallest_uint 32");
    vf_assert((std::is_same_v<stdx::smallest_uint_t<33>, u64>) and
                  (std::is_same_v<stdx::smallest_uint_t<64>, u64>),
              "smallest_uint 64");
    vf_reach("smallest_uint");
}
