// bitset operators, shifts, comparison, counting and conversion.
#include "bits.hpp"

template <typename S> static void operators() {
    auto const a = any_bitset<S>();
    auto const b = any_bitset<S>();
    std::size_t const i = vf::below(S::n);
    bool const x = a[i];
    bool const y = b[i];
    switch (vf::below(9)) {
    case 0:
        vf_assert((a | b)[i] == (x or y), "union");
        vf_reach("or");
        break;
    case 1:
        vf_assert((a & b)[i] == (x and y), "intersection");
        vf_reach("and");
        break;
    case 2:
        vf_assert((a ^ b)[i] == (x != y), "symmetric difference");
        vf_reach("xor");
        break;
    case 3:
        vf_assert((a - b)[i] == (x and not y), "difference");
        vf_reach("minus");
        break;
    case 4:
        vf_assert((~a)[i] == not x, "complement");
        vf_reach("not");
        break;
    case 5: {
        auto c = a;
        auto &r = (c |= b);
        vf_assert(c[i] == (x or y) and &r == &c, "union in place");
        vf_reach("or assign");
        break;
    }
    case 6: {
        auto c = a;
        auto &r = (c &= b);
        vf_assert(c[i] == (x and y) and &r == &c, "intersection in place");
        vf_reach("and assign");
        break;
    }
    case 7: {
        auto c = a;
        auto &r = (c ^= b);
        vf_assert(c[i] == (x != y) and &r == &c,
                  "symmetric difference in place");
        vf_reach("xor assign");
        break;
    }
    default: {
        auto c = a;
        c ^= c;
        vf_assert(not c[i], "xor with itself");
        auto d = a;
        d |= d;
        d &= d;
        vf_assert(d[i] == x, "and, or with itself");
        vf_reach("self");
        break;
    }
    }
    vf_assert(a[i] == x and b[i] == y, "operands are unchanged");
}

template <typename S> static void shift() {
    auto const a = any_bitset<S>();
    std::size_t const s = vf::any<std::size_t>();
    std::size_t const i = vf::below(S::n);
    bool const l = i >= s ? a[i - s] : false;
    bool const r = s < S::n and i + s < S::n ? a[i + s] : false;
    switch (vf::below(4)) {
    case 0:
        vf_assert((a << s)[i] == l, "left shift");
        vf_reach("shift left");
        break;
    case 1:
        vf_assert((a >> s)[i] == r, "right shift");
        vf_reach("shift right");
        break;
    case 2: {
        auto c = a;
        auto &q = (c <<= s);
        vf_assert(c[i] == l and &q == &c, "left shift in place");
        vf_reach("shift left assign");
        break;
    }
    default: {
        auto c = a;
        auto &q = (c >>= s);
        vf_assert(c[i] == r and &q == &c, "right shift in place");
        vf_reach("shift right assign");
        break;
    }
    }
}

template <typename S> static void compare() {
    auto const a = any_bitset<S>();
    auto const b = any_bitset<S>();
    bool same = true;
    vf::each<S::n>([&](std::size_t i) {
        same = same and a[i] == b[i];
    });
    vf_assert((a == b) == same, "equal iff the same bits");
    vf_assert((a != b) == not same, "unequal iff some bit differs");
    if (same) {
        vf_reach("equal");
    } else {
        vf_reach("different");
    }
}

template <typename S> static void counts() {
    auto const a = any_bitset<S>();
    std::size_t n = 0;
    std::size_t low = S::n;
    vf::each<S::n>([&](std::size_t i) {
        n += a[i] ? 1u : 0u;
        low = a[i] or low < S::n ? low : i;
    });
    vf_assert(a.count() == n, "count is the number of set bits");
    vf_assert(a.size() == n, "size is the number of set bits");
    vf_assert(a.empty() == (n == 0) and a.none() == (n == 0),
              "empty and none iff no bit");
    vf_assert(a.any() == (n != 0), "any iff some bit");
    vf_assert(a.all() == (n == S::n), "all iff every bit");
    vf_assert(a.lowest_unset() == low,
              "lowest_unset is the first clear bit or N");
    if (low == S::n) {
        vf_reach("full");
    } else {
        vf_reach("not full");
    }
}

template <typename S, typename T> static void to() {
    auto const a = any_bitset<S>();
    auto const v = static_cast<u64>(a.template to<T>());
    std::size_t const i = vf::below(64);
    vf_assert(((v >> i) & 1u) == (i < S::n and a[i < S::n ? i : 0]),
              "bit i of the integer is bit i of the set");
    vf_reach("to");
}
enum struct e16 : u16 {};
enum struct e64 : u64 {};

template <typename S> static void conversions() {
    if constexpr (S::n <= 8) {
        to<S, u8>();
    }
    if constexpr (S::n <= 16) {
        to<S, u16>();
        to<S, e16>();
    }
    if constexpr (S::n <= 32) {
        to<S, u32>();
    }
    to<S, u64>();
    to<S, e64>();
    auto const a = any_bitset<S>();
    auto const v = a.to_natural();
    vf_assert((std::is_same_v<decltype(v), stdx::smallest_uint_t<S::n> const>),
              "natural type is the smallest that fits");
    std::size_t const i = vf::below(S::n);
    vf_assert(((u64{v} >> i) & 1u) == a[i],
              "bit i of the natural integer is bit i of the set");
    typename S::type back{u64{v}};
    vf_assert(back == a, "the integer rebuilds the set");
    vf_reach("to natural");
}

#define INSTANCE(N, E)                                                         \
    VF_HARNESS(operators_##N##_##E) { operators<spec<N, E>>(); }               \
    VF_HARNESS(shift_##N##_##E) { shift<spec<N, E>>(); }                       \
    VF_HARNESS(compare_##N##_##E) { compare<spec<N, E>>(); }                   \
    VF_HARNESS(counts_##N##_##E) { counts<spec<N, E>>(); }
#define CONV(N, E)                                                             \
    VF_HARNESS(conversions_##N##_##E) { conversions<spec<N, E>>(); }
INSTANCE(1, u8)
INSTANCE(5, u8)
INSTANCE(8, u8)
INSTANCE(13, u8)
INSTANCE(24, u8)
INSTANCE(16, u16)
INSTANCE(37, u16)
INSTANCE(12, u32)
INSTANCE(33, u32)
INSTANCE(40, u64)
INSTANCE(64, u64)
INSTANCE(65, u64)
CONV(1, u8)
CONV(5, u8)
CONV(8, u8)
CONV(13, u8)
CONV(24, u8)
CONV(16, u16)
CONV(37, u16)
CONV(12, u32)
CONV(33, u32)
CONV(40, u64)
CONV(64, u64)
VF_HARNESS(operators_130_u64) { operators<spec<130, u64>>(); }
VF_HARNESS(shift_130_u64) { shift<spec<130, u64>>(); }

VF_HARNESS(empty) {
    stdx::bitset<0> x{vf::any<u64>()};
    stdx::bitset<0> y{};
    vf_assert(x == y and not(x != y), "empty sets are equal");
    vf_assert(x.count() == 0 and x.none() and x.all() and not x.any() and
                  x.empty() and x.lowest_unset() == 0,
              "counts of the empty set");
    vf_assert((x | y) == x and (x & y) == x and (x ^ y) == x and
                  (x - y) == x and ~x == x,
              "operators on the empty set");
    std::size_t const s = vf::any<std::size_t>();
    vf_assert((x << s) == x and (x >> s) == x, "shifts of the empty set");
    vf_assert(x.to<u64>() == 0, "conversion of the empty set");
    vf_reach("empty");
}
