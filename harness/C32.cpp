// sizes, alignment, signedness, counting iterators, make_array.
#include "vf.hpp"

#include <stdx/array.hpp>
#include <stdx/iterator.hpp>
#include <stdx/utility.hpp>

#include <array>
#include <compare>
#include <cstddef>
#include <limits>
#include <type_traits>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;

template <typename T, typename U> static void conversion() {
    std::size_t const k = vf::any<std::size_t>();
    // the number of bytes is representable, with room to round up
    vf_assume(k <= (std::numeric_limits<std::size_t>::max() - 8) / sizeof(T));
    std::size_t const bytes = k * sizeof(T);
    std::size_t const n = stdx::sized<T>{k}.template in<U>();
    vf_assert(n <= bytes + 1, "no more than one per byte");
    vf_assert(n * sizeof(U) >= bytes, "large enough");
    vf_assert(n == 0 or (n - 1) * sizeof(U) < bytes, "no larger than needed");
    vf_assert(k != 0 or n == 0, "nothing needs nothing");
    vf_reach("converted");
}
template <typename T> static void conversions() {
    conversion<T, u8>();
    conversion<T, u16>();
    conversion<T, u32>();
    conversion<T, u64>();
}
VF_HARNESS(sized_u8) { conversions<u8>(); }
VF_HARNESS(sized_u16) { conversions<u16>(); }
VF_HARNESS(sized_u32) { conversions<u32>(); }
VF_HARNESS(sized_u64) { conversions<u64>(); }
VF_HARNESS(sized_names) {
    std::size_t const k = vf::any<std::size_t>();
    vf_assume(k < (1ull << 60));
    vf_assert(stdx::sized8{k}.in() == k, "bytes");
    vf_assert(stdx::sized16{k}.in() == 2 * k, "16 bits in bytes");
    vf_assert(stdx::sized32{k}.in() == 4 * k, "32 bits in bytes");
    vf_assert(stdx::sized64{k}.in() == 8 * k, "64 bits in bytes");
    vf_assert(stdx::sized8{k}.in<u32>() == (k + 3) / 4, "bytes in words");
    vf_reach("names");
}
VF_HARNESS(sized_literals) {
    using namespace stdx::literals;
    vf_assert(5_z8->z8 == 5 and 5_z8->z16 == 3 and 5_z8->z32 == 2 and
                  5_z8->z64 == 1,
              "bytes");
    vf_assert(5_z16->z8 == 10 and 5_z16->z16 == 5 and 5_z16->z32 == 3 and
                  5_z16->z64 == 2,
              "16 bits");
    vf_assert(5_z32->z8 == 20 and 5_z32->z16 == 10 and 5_z32->z32 == 5 and
                  5_z32->z64 == 3,
              "32 bits");
    vf_assert(5_z64->z8 == 40 and 5_z64->z16 == 20 and 5_z64->z32 == 10 and
                  5_z64->z64 == 5,
              "64 bits");
    vf_reach("literals");
}

struct alignas(32) wide {};
template <typename T, typename I> static void alignment() {
    I const v = vf::any<I>();
    vf_assert(stdx::is_aligned_with<T>(v) == (v % static_cast<i64>(alignof(T)) == 0),
              "a multiple of the alignment");
    vf_reach("integer");
}
template <typename T> static void alignment_u64() {
    u64 const v = vf::any<u64>();
    vf_assert(stdx::is_aligned_with<T>(v) == (v % alignof(T) == 0),
              "a multiple of the alignment");
    alignas(64) static char buf[128];
    std::size_t const o = vf::upto(64);
    vf_assert(stdx::is_aligned_with<T>(buf + o) == (o % alignof(T) == 0),
              "an address that is a multiple of the alignment");
    char const *const p = buf + o;
    vf_assert(stdx::is_aligned_with<T>(p) == (o % alignof(T) == 0),
              "a constant address");
    void *const q = buf + o;
    vf_assert(stdx::is_aligned_with<T>(q) == (o % alignof(T) == 0),
              "a void address");
    vf_reach("pointer");
}
template <typename T> static void alignments() {
    alignment<T, i8>();
    alignment<T, u8>();
    alignment<T, i16>();
    alignment<T, u16>();
    alignment<T, i32>();
    alignment<T, u32>();
    alignment<T, i64>();
    alignment_u64<T>();
}
VF_HARNESS(aligned_u8) { alignments<u8>(); }
VF_HARNESS(aligned_u16) { alignments<u16>(); }
VF_HARNESS(aligned_u32) { alignments<u32>(); }
VF_HARNESS(aligned_u64) { alignments<u64>(); }
VF_HARNESS(aligned_wide) { alignments<wide>(); }

template <typename S, typename U> static void signedness() {
    S const s = vf::any<S>();
    U const u = vf::any<U>();
    auto const us = stdx::as_unsigned(s);
    auto const su = stdx::as_signed(u);
    vf_assert((std::is_same_v<decltype(us), U const>) and
                  (std::is_same_v<decltype(su), S const>),
              "the type of the other signedness");
    vf_assert((us == __builtin_bit_cast(U, s)) and
                  (su == __builtin_bit_cast(S, u)),
              "the same bits");
    vf_assert(stdx::as_unsigned(u) == u and stdx::as_signed(s) == s,
              "nothing to change");
    vf_assert(stdx::as_signed(us) == s and stdx::as_unsigned(su) == u,
              "there and back");
    vf_reach("signedness");
}
VF_HARNESS(signs) {
    signedness<i8, u8>();
    signedness<i16, u16>();
    signedness<i32, u32>();
    signedness<i64, u64>();
}

template <typename T> static void counting() {
    T const x = vf::any<T>();
    T const y = vf::any<T>();
    using It = stdx::counting_iterator<T>;
    using D = typename It::difference_type;
    // moving stays within the type, as for the integer itself
    vf_assume(x < std::numeric_limits<T>::max() and
              x > std::numeric_limits<T>::min());
    It const a{x};
    It const b{y};
    It const dflt{};
    vf_assert(*dflt == T{}, "starts at zero");
    vf_assert(*a == x, "dereference");
    It c{a};
    It &r = ++c;
    vf_assert(&r == &c and *c == static_cast<T>(x + 1), "++i");
    c = a;
    It const o = c++;
    vf_assert(*o == x and *c == static_cast<T>(x + 1), "i++");
    c = a;
    It &q = --c;
    vf_assert(&q == &c and *c == static_cast<T>(x - 1), "--i");
    c = a;
    It const p = c--;
    vf_assert(*p == x and *c == static_cast<T>(x - 1), "i--");
    vf_assert((a == b) == (x == y) and (a != b) == (x != y), "equality");
    vf_assert((a < b) == (x < y) and (a <= b) == (x <= y) and
                  (a > b) == (x > y) and (a >= b) == (x >= y),
              "order");
    vf_assert((a <=> b) == (x <=> y), "three-way");
    if constexpr (std::is_signed_v<T> and sizeof(T) >= sizeof(int)) {
        T d{};
        vf_assume(not __builtin_sub_overflow(y, x, &d));
        vf_assume(d != std::numeric_limits<T>::min());
    }
    D const d = y - x;
    vf_assert(b - a == d, "difference");
    vf_assert(*(a + d) == y and *(d + a) == y and *(b - d) == x, "+ and -");
    c = a;
    It &s = (c += d);
    vf_assert(&s == &c and *c == y, "+=");
    It &t = (c -= d);
    vf_assert(&t == &c and *c == x, "-=");
    It &u = c.advance(d);
    vf_assert(&u == &c and *c == y, "advance");
    *c = x;
    vf_assert(c == a, "assigned through");
    vf_reach("counting");
}
VF_HARNESS(counting_i8) { counting<i8>(); }
VF_HARNESS(counting_u8) { counting<u8>(); }
VF_HARNESS(counting_i32) { counting<i32>(); }
VF_HARNESS(counting_u32) { counting<u32>(); }
VF_HARNESS(counting_i64) { counting<i64>(); }
VF_HARNESS(counting_u64) { counting<u64>(); }

template <auto V> struct twice {
    constexpr static auto value = V * 2;
};
VF_HARNESS(arrays) {
    auto const a = vf::any<u32>();
    auto const b = vf::any<u32>();
    auto const c = vf::any<u32>();
    auto const d = vf::any<u16>();
    auto const x = stdx::make_array(a, b, c);
    vf_assert((std::is_same_v<decltype(x), std::array<u32, 3> const>) and
                  x[0] == a and x[1] == b and x[2] == c,
              "arguments in order");
    auto const y = stdx::make_array<u64>(a, d, b);
    vf_assert((std::is_same_v<decltype(y), std::array<u64, 3> const>) and
                  y[0] == a and y[1] == d and y[2] == b,
              "arguments converted, in order");
    auto const z = stdx::make_array(a, d);
    vf_assert((std::is_same_v<decltype(z), std::array<u32, 2> const>) and
                  z[0] == a and z[1] == d,
              "common type");
    vf_assert((std::is_same_v<decltype(stdx::make_array()),
                              std::array<int, 0>>) and
                  (std::is_same_v<decltype(stdx::make_array<u8>()),
                                  std::array<u8, 0>>),
              "no arguments");
    auto const t = stdx::make_array<twice, 4>();
    vf_assert(t.size() == 4 and t[0] == 0 and t[1] == 2 and t[2] == 4 and
                  t[3] == 6,
              "from a template");
    auto const s = stdx::make_array<twice>(
        std::integer_sequence<int, 7, 1, -3>{});
    vf_assert(s.size() == 3 and s[0] == 14 and s[1] == 2 and s[2] == -6,
              "from a template and a sequence");
    int calls[4];
    vf::each<4>([&](std::size_t i) { calls[i] = 0; });
    auto const f = stdx::make_array<4>([&]<int I>() {
        ++calls[I];
        return static_cast<u32>(a + I);
    });
    vf_assert(f.size() == 4 and f[0] == a and f[1] == u32(a + 1u) and
                  f[2] == u32(a + 2u) and f[3] == u32(a + 3u),
              "from a function");
    auto const g = stdx::make_array(std::integer_sequence<int, 5, 2>{},
                                    [&]<int I>() { return u32(a * u32(I)); });
    vf_assert(g.size() == 2 and g[0] == u32(a * 5u) and g[1] == u32(a * 2u),
              "from a function and a sequence");
    vf_reach("arrays");
}
VF_HARNESS(capacities) {
    std::array<u8, 5> a{};
    u8 c[3] = {1, 2, 3};
    vf_assert(stdx::ct_capacity_v<decltype(a)> == 5 and
                  stdx::ct_capacity_v<decltype(a) const> == 5 and
                  stdx::ct_capacity_v<decltype(c)> == 3 and
                  stdx::ct_capacity_v<std::array<u8, 0>> == 0,
              "compile-time capacity");
    vf_reach("capacities");
}
