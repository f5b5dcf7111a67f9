// One digit of an integer literal, after any digits read so far.
#include "vf_consteval.hpp"

#include "vf.hpp"

#include <stdx/udls.hpp>

namespace {
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <auto Base, char C, typename T> void digit(T value) {
    T const s = vf::any<T>();
    T const r = stdx::detail::maybe_add_digit<Base, C>(s);
    vf_assert(r == static_cast<T>(static_cast<T>(1u * s * Base) + value),
              "the digits so far times the base, plus the digit");
}
template <auto Base, typename T, char... Cs> void digits() {
    T value{};
    ((digit<Base, Cs, T>(value), ++value), ...);
}
template <auto Base, typename T> void separator() {
    T const s = vf::any<T>();
    T const r = stdx::detail::maybe_add_digit<Base, '\''>(s);
    vf_assert(r == s, "a separator changes nothing");
}
template <typename T> void every_digit() {
    digits<2, T, '0', '1'>();
    digits<8, T, '0', '1', '2', '3', '4', '5', '6', '7'>();
    digits<10, T, '0', '1', '2', '3', '4', '5', '6', '7', '8', '9'>();
    digits<16, T, '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'a', 'b',
           'c', 'd', 'e', 'f'>();
    digits<16, T, '0', '1', '2', '3', '4', '5', '6', '7', '8', '9', 'A', 'B',
           'C', 'D', 'E', 'F'>();
    separator<2, T>();
    separator<8, T>();
    separator<10, T>();
    separator<16, T>();
    vf_reach("every digit");
}
} // namespace

VF_HARNESS(digit_u8) { every_digit<u8>(); }
VF_HARNESS(digit_u16) { every_digit<u16>(); }
VF_HARNESS(digit_u32) { every_digit<u32>(); }
VF_HARNESS(digit_u64) { every_digit<u64>(); }
