// rollover_t: arithmetic modulo 2^n.
#include "vf.hpp"

#include <stdx/rollover.hpp>

#include <limits>
#include <type_traits>

__extension__ using u128 = unsigned __int128;
__extension__ using i128 = __int128;

// the mathematical integer reduced modulo 2^n
template <typename T> static T mod(i128 x) {
    return static_cast<T>(static_cast<u128>(x));
}

template <typename T> static void arith() {
    using R = stdx::rollover_t<T>;
    T a = vf::any<T>();
    T b = vf::any<T>();
    R x{a};
    R y{b};
    i128 const wa = a;
    i128 const wb = b;
    vf_assert(R{}.as_underlying() == 0, "default is zero");
    vf_assert(x.as_underlying() == a and static_cast<T>(x) == a,
              "value is kept");
    vf_assert((x + y).as_underlying() == mod<T>(wa + wb), "a + b mod 2^n");
    vf_assert((x - y).as_underlying() == mod<T>(wa - wb), "a - b mod 2^n");
    vf_assert((-x).as_underlying() == mod<T>(-wa), "-a mod 2^n");
    vf_assert((+x).as_underlying() == a, "+a");
    vf_assert((x == y) == (a == b) and (x != y) == (a != b), "equality");
    {
        R z = x;
        R &r = (z += y);
        vf_assert(&r == &z and z.as_underlying() == mod<T>(wa + wb),
                  "a += b mod 2^n");
    }
    {
        R z = x;
        R &r = (z -= y);
        vf_assert(&r == &z and z.as_underlying() == mod<T>(wa - wb),
                  "a -= b mod 2^n");
    }
    {
        R z = x;
        R &r = ++z;
        vf_assert(&r == &z and z.as_underlying() == mod<T>(wa + 1),
                  "++a mod 2^n");
    }
    {
        R z = x;
        R &r = --z;
        vf_assert(&r == &z and z.as_underlying() == mod<T>(wa - 1),
                  "--a mod 2^n");
    }
    {
        R z = x;
        R r = z++;
        vf_assert(r.as_underlying() == a and
                      z.as_underlying() == mod<T>(wa + 1),
                  "a++ mod 2^n");
    }
    {
        R z = x;
        R r = z--;
        vf_assert(r.as_underlying() == a and
                      z.as_underlying() == mod<T>(wa - 1),
                  "a-- mod 2^n");
    }
    {
        R z = x;
        z += z;
        vf_assert(z.as_underlying() == mod<T>(wa + wa), "a += a");
        z -= z;
        vf_assert(z.as_underlying() == 0, "a -= a");
    }
    vf_reach("arithmetic");
}
VF_HARNESS(arith8) { arith<std::uint8_t>(); }
VF_HARNESS(arith16) { arith<std::uint16_t>(); }
VF_HARNESS(arith32) { arith<std::uint32_t>(); }
VF_HARNESS(arith64) { arith<std::uint64_t>(); }

template <typename T> static void mul() {
    using R = stdx::rollover_t<T>;
    T a = vf::any<T>();
    T b = vf::any<T>();
    // the product of the wide values, truncated
    T p = static_cast<T>(static_cast<std::uint64_t>(a) *
                         static_cast<std::uint64_t>(b));
    vf_assert((R{a} * R{b}).as_underlying() == p, "a * b mod 2^n");
    R z{a};
    R &r = (z *= R{b});
    vf_assert(&r == &z and z.as_underlying() == p, "a *= b mod 2^n");
    vf_reach("product");
}
VF_HARNESS(mul8) { mul<std::uint8_t>(); }
VF_HARNESS(mul16) { mul<std::uint16_t>(); }
VF_HARNESS(mul32) { mul<std::uint32_t>(); }
VF_HARNESS(mul64) { mul<std::uint64_t>(); }

template <typename T> static void div() {
    using R = stdx::rollover_t<T>;
    T a = vf::any<T>();
    T b = vf::any<T>();
    vf_assume(b != 0);
    T const q = static_cast<T>(a / b);
    T const m = static_cast<T>(a % b);
    vf_assert((R{a} / R{b}).as_underlying() == q, "quotient");
    vf_assert((R{a} % R{b}).as_underlying() == m, "remainder");
    R z{a};
    R &r = (z /= R{b});
    vf_assert(&r == &z and z.as_underlying() == q, "quotient in place");
    R w{a};
    R &s = (w %= R{b});
    vf_assert(&s == &w and w.as_underlying() == m, "remainder in place");
    vf_reach("quotient");
}
VF_HARNESS(div8) { div<std::uint8_t>(); }
VF_HARNESS(div16) { div<std::uint16_t>(); }
VF_HARNESS(div32) { div<std::uint32_t>(); }
VF_HARNESS(div64) { div<std::uint64_t>(); }

// cmp_less(a, b) iff b is between 1 and 2^(n-1) steps ahead of a
template <typename T> static void less() {
    using R = stdx::rollover_t<T>;
    T a = vf::any<T>();
    T b = vf::any<T>();
    u128 const ahead = static_cast<u128>(mod<T>(i128{b} - i128{a}));
    u128 const half = u128{1} << (std::numeric_limits<T>::digits - 1);
    vf_assert(cmp_less(R{a}, R{b}) == (ahead >= 1 and ahead <= half),
              "cmp_less is the half-range order");
    if (cmp_less(R{a}, R{b})) {
        vf_reach("less");
        if (a > b) {
            vf_reach("less across the rollover");
        }
        if (ahead != half) {
            vf_assert(not cmp_less(R{b}, R{a}), "asymmetric");
        }
    }
    vf_assert(not cmp_less(R{a}, R{a}), "irreflexive");
}
VF_HARNESS(less8) { less<std::uint8_t>(); }
VF_HARNESS(less16) { less<std::uint16_t>(); }
VF_HARNESS(less32) { less<std::uint32_t>(); }
VF_HARNESS(less64) { less<std::uint64_t>(); }

template <typename T, typename U> static void convert() {
    U u = vf::any<U>();
    stdx::rollover_t<T> a{u};
    vf_assert(a.as_underlying() == static_cast<T>(u), "from an integer");
    if constexpr (std::is_unsigned_v<U>) {
        stdx::rollover_t<U> r{u};
        stdx::rollover_t<T> b{r};
        vf_assert(b.as_underlying() == static_cast<T>(u),
                  "from another width, modulo 2^n");
        if constexpr (std::is_unsigned_v<std::common_type_t<T, U>>) {
            using C = std::common_type_t<stdx::rollover_t<T>, stdx::rollover_t<U>>;
            C c{b};
            vf_assert(
                (std::is_same_v<C, stdx::rollover_t<std::common_type_t<T, U>>>),
                "common type");
            vf_assert(c.as_underlying() == static_cast<T>(u),
                      "to the common type");
        }
    }
    vf_reach("conversion");
}
template <typename U> static void convert_all() {
    convert<std::uint8_t, U>();
    convert<std::uint16_t, U>();
    convert<std::uint32_t, U>();
    convert<std::uint64_t, U>();
}
VF_HARNESS(convert_unsigned) {
    convert_all<std::uint8_t>();
    convert_all<std::uint16_t>();
    convert_all<std::uint32_t>();
    convert_all<std::uint64_t>();
}
VF_HARNESS(convert_signed) {
    convert_all<std::int8_t>();
    convert_all<std::int16_t>();
    convert_all<std::int32_t>();
    convert_all<std::int64_t>();
}
