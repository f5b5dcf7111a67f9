// bitset construction and mutation.
#include "bits.hpp"

#include <string_view>

using stdx::length_t;
using stdx::lsb_t;
using stdx::msb_t;

// position i is read before and after; i is arbitrary, so the frame condition
// holds for every position
template <typename S> static void single() {
    auto x = any_bitset<S>();
    std::size_t const i = vf::below(S::n);
    bool const was = x[i];
    std::size_t const p = vf::below(S::n);
    bool const v = vf::any<bool>();
    bool want = was;
    typename S::type *r = nullptr;
    switch (vf::below(7)) {
    case 0:
        r = &x.set(p);
        want = i == p ? true : was;
        vf_reach("set one");
        break;
    case 1:
        r = &x.set(p, v);
        want = i == p ? v : was;
        vf_reach("set one to a value");
        break;
    case 2:
        r = &x.reset(p);
        want = i == p ? false : was;
        vf_reach("reset one");
        break;
    case 3:
        r = &x.clear(p);
        want = i == p ? false : was;
        vf_reach("clear one");
        break;
    case 4:
        r = &x.flip(p);
        want = i == p ? not was : was;
        vf_reach("flip one");
        break;
    case 5:
        // int index, as written by users
        r = &x.set(static_cast<int>(p), v);
        want = i == p ? v : was;
        break;
    default:
        r = &x.flip(static_cast<u16>(p));
        want = i == p ? not was : was;
        break;
    }
    vf_assert(x[i] == want, "exactly the named bit changes");
    vf_assert(r == &x, "returns the bitset");
}

template <typename S> static void whole() {
    auto x = any_bitset<S>();
    std::size_t const i = vf::below(S::n);
    bool const was = x[i];
    bool want = was;
    typename S::type *r = nullptr;
    switch (vf::below(4)) {
    case 0:
        r = &x.set();
        want = true;
        vf_reach("set all");
        break;
    case 1:
        r = &x.reset();
        want = false;
        vf_reach("reset all");
        break;
    case 2:
        r = &x.clear();
        want = false;
        vf_reach("clear all");
        break;
    default:
        r = &x.flip();
        want = not was;
        vf_reach("flip all");
        break;
    }
    vf_assert(x[i] == want, "every bit takes its new value");
    vf_assert(r == &x, "returns the bitset");
}

template <typename S> static void range() {
    auto x = any_bitset<S>();
    std::size_t const i = vf::below(S::n);
    bool const was = x[i];
    std::size_t const m = vf::below(S::n);
    std::size_t const l = vf::upto(m);
    bool const v = vf::any<bool>();
    bool in = l <= i and i <= m;
    auto const lsb = static_cast<lsb_t>(l);
    auto const msb = static_cast<msb_t>(m);
    auto const len = static_cast<length_t>(m - l + 1);
    bool want = was;
    typename S::type *r = nullptr;
    switch (vf::below(8)) {
    case 0:
        r = &x.set(lsb, msb);
        want = in ? true : was;
        vf_reach("set range");
        break;
    case 1:
        r = &x.set(lsb, msb, v);
        want = in ? v : was;
        vf_reach("set range to a value");
        break;
    case 2:
        r = &x.set(lsb, len);
        want = in ? true : was;
        vf_reach("set length");
        break;
    case 3:
        r = &x.set(lsb, len, v);
        want = in ? v : was;
        vf_reach("set length to a value");
        break;
    case 4:
        r = &x.reset(lsb, msb);
        want = in ? false : was;
        vf_reach("reset range");
        break;
    case 5:
        r = &x.reset(lsb, len);
        want = in ? false : was;
        vf_reach("reset length");
        break;
    case 6:
        r = &x.clear(lsb, msb);
        want = in ? false : was;
        vf_reach("clear range");
        break;
    default:
        r = &x.clear(lsb, len);
        want = in ? false : was;
        vf_reach("clear length");
        break;
    }
    vf_assert(x[i] == want, "exactly the bits of the range change");
    vf_assert(r == &x, "returns the bitset");
}

template <typename S> static void construct() {
    std::size_t const i = vf::below(S::n);
    typename S::type e{};
    vf_assert(not e[i], "default: no bit");
    typename S::type all{stdx::all_bits};
    vf_assert(all[i], "all_bits: every bit");
    u64 const value = vf::any<u64>();
    typename S::type x{value};
    vf_assert(x[i] == (i < 64 and ((value >> (i < 64 ? i : 0)) & 1u) != 0),
              "integer: bit i of the value");
    std::size_t const p = vf::below(S::n);
    std::size_t const q = vf::below(S::n);
    typename S::type pq{stdx::place_bits, p, q};
    vf_assert(pq[i] == (i == p or i == q), "places: exactly those");
    typename S::type none{stdx::place_bits};
    vf_assert(not none[i], "no places");
    typename S::type cp{pq};
    vf_assert(cp[i] == pq[i], "copy");
    vf_assert(S::type::capacity() == S::n, "capacity is N");
    vf_reach("construct");
}

// string of up to L characters, most significant bit first
template <typename S, std::size_t L> static void from_string() {
    char s[L];
    for (auto &c : s) {
        c = vf::any<char>();
    }
    std::size_t const len = vf::upto(L);
    std::size_t const pos = vf::upto(len);
    char const one = vf::any<char>();
    std::size_t const i = vf::below(S::n);
    std::size_t n = vf::any<std::size_t>();
    std::string_view const sv{s, len};
    std::size_t used = len - pos;
    used = n < used ? n : used;
    used = S::n < used ? S::n : used;
    typename S::type x{sv, pos, n, one};
    vf_assert(x[i] == (i < used and s[pos + used - 1 - (i < used ? i : 0)] ==
                                        one),
              "string: characters from the right");
    if (pos == 0) {
        typename S::type y{sv};
        std::size_t const u = len < S::n ? len : S::n;
        vf_assert(y[i] == (i < u and s[u - 1 - (i < u ? i : 0)] == '1'),
                  "string: '1' is one, whole string");
    }
    vf_reach("string");
}

#define INSTANCE(N, E)                                                         \
    VF_HARNESS(single_##N##_##E) { single<spec<N, E>>(); }                     \
    VF_HARNESS(whole_##N##_##E) { whole<spec<N, E>>(); }                       \
    VF_HARNESS(range_##N##_##E) { range<spec<N, E>>(); }                       \
    VF_HARNESS(construct_##N##_##E) { construct<spec<N, E>>(); }
INSTANCE(1, u8)
INSTANCE(5, u8)
INSTANCE(8, u8)
INSTANCE(13, u8)
INSTANCE(24, u8)
INSTANCE(16, u16)
INSTANCE(37, u16)
INSTANCE(12, u32)
INSTANCE(32, u32)
INSTANCE(33, u32)
INSTANCE(40, u64)
INSTANCE(64, u64)
INSTANCE(65, u64)
INSTANCE(130, u64)

VF_HARNESS(string_3_u8) { from_string<spec<3, u8>, 5>(); }
VF_HARNESS(string_9_u8) { from_string<spec<9, u8>, 11>(); }
VF_HARNESS(string_6_u32) { from_string<spec<6, u32>, 6>(); }

VF_HARNESS(ct_string) {
    stdx::bitset<5> const x{stdx::ct_string{"10110"}};
    stdx::bitset y{stdx::ct_string{"011"}};
    vf_assert(not x[0] and x[1] and x[2] and not x[3] and x[4],
              "constant string");
    vf_assert(decltype(y)::capacity() == 3 and y[0] and y[1] and not y[2],
              "constant string gives the size");
    vf_reach("constant string");
}

enum struct pos : u8 { a, b, c, d, max };
VF_HARNESS(enum_index) {
    stdx::bitset<pos::max> x{vf::any<u64>()};
    auto const i = static_cast<pos>(vf::below(4));
    auto const p = static_cast<pos>(vf::below(4));
    bool const was = x[i];
    switch (vf::below(3)) {
    case 0:
        x.set(p);
        vf_assert(x[i] == (i == p ? true : was), "set by enumerator");
        break;
    case 1:
        x.reset(p);
        vf_assert(x[i] == (i == p ? false : was), "reset by enumerator");
        break;
    default:
        x.flip(p);
        vf_assert(x[i] == (i == p ? not was : was), "flip by enumerator");
        break;
    }
    stdx::bitset<pos::max> y{stdx::place_bits, p, pos::c};
    vf_assert(y[i] == (i == p or i == pos::c), "places by enumerator");
    vf_assert(stdx::bitset<pos::max>::capacity() == 4, "capacity");
    vf_reach("enum");
}

// no bits at all: nothing to read or write
VF_HARNESS(empty) {
    stdx::bitset<0> x{};
    x.set();
    x.flip();
    x.reset();
    stdx::bitset<0> y{vf::any<u64>()};
    stdx::bitset<0> z{stdx::all_bits};
    vf_assert(stdx::bitset<0>::capacity() == 0, "capacity");
    vf_reach("empty");
}
