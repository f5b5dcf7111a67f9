// type_bitset: every distinct type owns one bit.
#include "vf.hpp"

#include <stdx/bitset.hpp>

#include <type_traits>

using u64 = std::uint64_t;

struct A {};
struct B {};
struct C {};
struct D {};
template <int> struct X {};

template <typename... Ts> struct types {};

// S: the set, L: its distinct types in order of first appearance
template <typename S, typename... Us> struct bits {
    constexpr static std::size_t n = sizeof...(Us);
    constexpr static u64 mask = n >= 64 ? ~u64{} : (u64{1} << n) - 1;

    // every bit read through the type index
    static u64 image(S const &s) {
        u64 r = 0;
        u64 b = 1;
        ((r |= s[stdx::type_identity<Us>{}] ? b : 0, b <<= 1), ...);
        return r;
    }
    // any reachable state
    static S any() {
        S s{vf::any<u64>()};
        if (vf::any<bool>()) {
            s.flip();
        }
        if (vf::any<bool>()) {
            return ~s;
        }
        return s;
    }
    static void whole() {
        u64 const v = vf::any<u64>();
        S s{v};
        vf_assert(image(s) == (v & mask), "built from an integer: bit i is "
                                          "the bit of type i");
        vf_assert(s.template to<u64>() == (v & mask),
                  "to integer: bit i is the bit of type i");
        vf_assert(u64{s.to_natural()} == (v & mask), "to natural integer");
        vf_assert(image(S{}) == 0, "default is empty");
        vf_assert(image(S{stdx::all_bits}) == mask, "all_bits has all");
        vf_assert(S::capacity() == n, "capacity is the number of types");
        auto a = any();
        u64 const x = image(a);
        S *r = nullptr;
        switch (vf::below(4)) {
        case 0:
            r = &a.set();
            vf_assert(image(a) == mask, "set all");
            break;
        case 1:
            r = &a.reset();
            vf_assert(image(a) == 0, "reset all");
            break;
        case 2:
            r = &a.clear();
            vf_assert(image(a) == 0, "clear all");
            break;
        default:
            r = &a.flip();
            vf_assert(image(a) == (~x & mask), "flip all");
            break;
        }
        vf_assert(r == &a, "returns the set");
        vf_reach("whole");
    }
    static void operators() {
        auto const a = any();
        auto const b = any();
        u64 const x = image(a);
        u64 const y = image(b);
        vf_assert(image(a | b) == (x | y), "union");
        vf_assert(image(a & b) == (x & y), "intersection");
        vf_assert(image(a ^ b) == (x ^ y), "symmetric difference");
        vf_assert(image(a - b) == (x & ~y), "difference");
        vf_assert(image(~a) == (~x & mask), "complement");
        auto c = a;
        vf_assert(&(c |= b) == &c and image(c) == (x | y), "union in place");
        c = a;
        vf_assert(&(c &= b) == &c and image(c) == (x & y),
                  "intersection in place");
        c = a;
        vf_assert(&(c ^= b) == &c and image(c) == (x ^ y),
                  "symmetric difference in place");
        vf_assert((a == b) == (x == y) and (a != b) == (x != y), "equality");
        u64 k = 0;
        u64 z = x;
        vf::each<n>([&](std::size_t) {
            k += z & 1u;
            z >>= 1;
        });
        vf_assert(a.count() == k and a.size() == k, "count");
        vf_assert(a.empty() == (k == 0) and a.none() == (k == 0) and
                      a.any() == (k != 0) and a.all() == (k == n),
                  "empty, none, any, all");
        vf_reach("operators");
    }
    template <typename T> static constexpr u64 own() {
        u64 r = 0;
        u64 b = 1;
        ((r |= std::is_same_v<T, Us> ? b : 0, b <<= 1), ...);
        return r;
    }
    template <typename... Qs> static void named() {
        constexpr u64 m = (own<Qs>() | ...);
        auto a = any();
        u64 const x = image(a);
        bool const v = vf::any<bool>();
        S *r = nullptr;
        switch (vf::below(6)) {
        case 0:
            r = &a.template set<Qs...>();
            vf_assert(image(a) == (x | m), "set exactly the named types");
            break;
        case 1:
            r = &a.template set<Qs...>(v);
            vf_assert(image(a) == (v ? x | m : x & ~m),
                      "set exactly the named types to the value");
            break;
        case 2:
            r = &a.template reset<Qs...>();
            vf_assert(image(a) == (x & ~m), "reset exactly the named types");
            break;
        case 3:
            r = &a.template clear<Qs...>();
            vf_assert(image(a) == (x & ~m), "clear exactly the named types");
            break;
        case 4:
            r = &a.template flip<Qs...>();
            vf_assert(image(a) == (x ^ m), "flip exactly the named types");
            break;
        default:
            r = &a;
            vf_assert(image(S{stdx::type_list<Qs...>{}}) == m,
                      "built from a type list");
            break;
        }
        vf_assert(r == &a, "returns the set");
        vf_reach("named");
    }
    // which bit belongs to a type, recorded by the visitor
    struct visitor {
        u64 *seen;
        u64 *next;
        u64 tag;
        template <typename T, std::size_t I> void operator()() {
            u64 const b = own<T>();
            vf_assert(b == u64{1} << I, "type and index belong together");
            vf_assert(b >= *next, "types in ascending order, once each");
            *next = b << 1;
            *seen |= b;
            ++tag;
        }
    };
    static void each() {
        auto const a = any();
        u64 const x = image(a);
        u64 seen = 0;
        u64 next = 1;
        u64 const t = vf::any<u64>();
        visitor v{&seen, &next, t};
        auto r = a.for_each(v);
        vf_assert(seen == x, "for_each visits exactly the set types");
        vf_assert(r.tag == t + a.count(), "returns the function");
        seen = 0;
        next = 1;
        static_cast<void>(a.template for_each<stdx::unset_bit>(
            visitor{&seen, &next, t}));
        vf_assert(seen == (~x & mask),
                  "for_each visits exactly the unset types");
        vf_assert(image(a) == x, "iterating does not change the set");
        vf_reach("for_each");
    }
};

using one = bits<stdx::type_bitset<A>, A>;
using four = bits<stdx::type_bitset<A, B, C, D>, A, B, C, D>;
using repeated = bits<stdx::type_bitset<A, B, A, C, B, D, A>, A, B, C, D>;
using three = bits<stdx::type_bitset<A, B, C>, A, B, C>;
using nine =
    bits<stdx::type_bitset<X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>,
                           X<8>>,
         X<0>, X<1>, X<2>, X<3>, X<4>, X<5>, X<6>, X<7>, X<8>>;

#define INSTANCE(S)                                                            \
    VF_HARNESS(S##_whole) { S::whole(); }                                      \
    VF_HARNESS(S##_operators) { S::operators(); }                              \
    VF_HARNESS(S##_each) { S::each(); }
INSTANCE(one)
INSTANCE(four)
INSTANCE(three)
INSTANCE(repeated)
VF_HARNESS(nine_whole) { nine::whole(); }
VF_HARNESS(nine_operators) { nine::operators(); }

VF_HARNESS(one_named) { one::named<A>(); }
template <typename S> static void named4() {
    S::template named<A>();
    S::template named<B>();
    S::template named<C>();
    S::template named<D>();
    S::template named<D, A>();
    S::template named<B, C, D>();
    S::template named<A, B, C, D>();
}
VF_HARNESS(four_named) { named4<four>(); }
VF_HARNESS(repeated_named) { named4<repeated>(); }
VF_HARNESS(nine_named) {
    nine::named<X<0>>();
    nine::named<X<7>>();
    nine::named<X<8>>();
    nine::named<X<8>, X<3>>();
}
