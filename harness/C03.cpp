// bitset iteration.
#include "bits.hpp"

#include <type_traits>
#include <utility>

// calls are checked as they happen: index c is the next one the specification
// allows, `bits` the value of the set
template <typename S, int Kind> struct visitor {
    image<S> const &im;
    std::size_t *next;
    std::size_t *calls;
    u32 tag;

    constexpr bool selected(std::size_t i) const {
        return Kind == 2 or im.b[i] == (Kind == 0);
    }
    void step(std::size_t i) {
        vf_assert(i < S::n, "index below N");
        vf_assert(i >= *next, "indices ascend");
        if (i < S::n and i >= *next) {
            vf_assert(selected(i), "only selected bits are visited");
            vf::each<S::n>([&](std::size_t j) {
                vf_assert(j < *next or j >= i or not selected(j),
                          "no selected bit is skipped");
            });
        }
        *next = i + 1;
        ++*calls;
        ++tag;
    }
    void operator()(std::size_t i) { step(i); }
    void operator()(std::size_t i, bool v) {
        step(i);
        vf_assert(i < S::n and v == im.b[i < S::n ? i : 0],
                  "the value of the bit is passed");
    }
};

// bits around an element boundary arbitrary, the others as given
template <typename S> static typename S::type edge_bitset(bool rest) {
    typename S::type x{};
    if (rest) {
        x.set();
    }
    for (std::size_t i = 60; i < 70; ++i) {
        x.set(i, vf::any<bool>());
    }
    return x;
}

template <typename S, int Kind, typename Spec, bool Edge = false>
static void each() {
    auto const a = [] {
        if constexpr (Edge) {
            return edge_bitset<S>(Kind == 1);
        } else {
            return any_bitset<S>();
        }
    }();
    image<S> const im{a};
    std::size_t next = 0;
    std::size_t calls = 0;
    u32 const tag = vf::any<u32>();
    visitor<S, Kind> v{im, &next, &calls, tag};
    auto r = [&] {
        if constexpr (Kind == 0) {
            // the default selection
            return stdx::for_each(v, a);
        } else {
            return stdx::for_each<Spec>(v, a);
        }
    }();
    std::size_t want = 0;
    vf::each<S::n>([&](std::size_t j) {
        bool const sel = Kind == 2 or im.b[j] == (Kind == 0);
        want += sel ? 1u : 0u;
        vf_assert(j < next or not sel, "every selected bit is visited");
    });
    vf_assert(calls == want, "one call per selected bit");
    vf_assert(r.tag == v.tag and r.next == &next, "returns the function");
    image<S> const after{a};
    std::size_t const i = vf::below(S::n);
    vf_assert(after.b[i] == im.b[i], "iterating does not change the set");
    vf_reach("for_each");
    if (calls > 1 or S::n == 1) {
        vf_reach("several");
    }
    if (calls == 0) {
        vf_reach("none");
    }
}
template <typename S> static void each_bit() {
    auto const a = any_bitset<S>();
    image<S> const im{a};
    std::size_t next = 0;
    std::size_t calls = 0;
    visitor<S, 2> v{im, &next, &calls, 0};
    stdx::for_each<stdx::bit>(v, a);
    vf_assert(calls == S::n and next == S::n, "every bit is visited");
    vf_reach("for_each bit");
}

// a fold that is neither commutative nor associative, carried out symbolically:
// the accumulator counts steps, each step checks the term
template <typename S> static void reduce() {
    auto const a = any_bitset<S>();
    image<S> const im{a};
    u32 const init = vf::any<u32>();
    u32 state = init;
    std::size_t next = 0;
    std::size_t fcalls = 0;
    auto f = [&](std::size_t i) -> u64 {
        vf_assert(i < S::n and i >= next and im.b[i < S::n ? i : 0],
                  "transform is called on set bits in ascending order");
        vf::each<S::n>([&](std::size_t j) {
            vf_assert(j < next or j >= i or not im.b[j],
                      "no set bit is skipped");
        });
        next = i + 1;
        ++fcalls;
        return (u64{state} << 32) | i;
    };
    auto r = [&](u32 acc, u64 t) -> u32 {
        vf_assert(acc == state, "the accumulator is passed on");
        vf_assert(t == ((u64{state} << 32) | (next - 1)),
                  "the transformed bit is passed on");
        state = acc * 7u + static_cast<u32>(t) + 1u;
        return state;
    };
    u32 const got = stdx::transform_reduce(f, r, init, a);
    vf_assert(got == state, "the last accumulator is returned");
    std::size_t want = 0;
    vf::each<S::n>([&](std::size_t j) {
        want += im.b[j] ? 1u : 0u;
        vf_assert(j < next or not im.b[j], "every set bit is folded");
    });
    vf_assert(fcalls == want, "each set bit is folded once");
    vf_reach("reduce");
}

#define INSTANCE(N, E)                                                         \
    VF_HARNESS(set_##N##_##E) { each<spec<N, E>, 0, stdx::set_bit>(); }        \
    VF_HARNESS(set2_##N##_##E) { each<spec<N, E>, 1, stdx::unset_bit>(); }     \
    VF_HARNESS(bit_##N##_##E) { each_bit<spec<N, E>>(); }                      \
    VF_HARNESS(reduce_##N##_##E) { reduce<spec<N, E>>(); }
INSTANCE(1, u8)
INSTANCE(5, u8)
INSTANCE(8, u8)
INSTANCE(13, u8)
INSTANCE(11, u16)
INSTANCE(17, u16)
INSTANCE(10, u32)
INSTANCE(9, u64)

// bounded: only the bits next to the element boundary vary
VF_HARNESS(edge_set_70_u64) {
    each<spec<70, u64>, 0, stdx::set_bit, true>();
}
VF_HARNESS(edge_unset_70_u64) {
    each<spec<70, u64>, 1, stdx::unset_bit, true>();
}

enum struct pos : u8 { a, b, c, d, e, max };
VF_HARNESS(enum_argument) {
    stdx::bitset<pos::max> const x{vf::any<u64>()};
    int last = -1;
    std::size_t calls = 0;
    stdx::for_each(
        [&](auto p) {
            vf_assert((std::is_same_v<decltype(p), pos>),
                      "enumerators are passed");
            vf_assert(static_cast<int>(p) > last and x[p],
                      "set enumerators ascend");
            last = static_cast<int>(p);
            ++calls;
        },
        x);
    vf_assert(calls == x.count(), "one call per enumerator");
    vf_reach("enum");
}
VF_HARNESS(empty) {
    stdx::bitset<0> const x{vf::any<u64>()};
    stdx::for_each([](auto) { vf_assert(false, "no bits to visit"); }, x);
    stdx::for_each<stdx::unset_bit>(
        [](auto) { vf_assert(false, "no unset bits to visit"); }, x);
    vf_assert(stdx::transform_reduce([](auto) { return 1; },
                                     [](int p, int q) { return p + q; }, 17,
                                     x) == 17,
              "empty fold");
    vf_reach("empty");
}
