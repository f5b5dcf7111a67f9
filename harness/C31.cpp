// atomic_bitset: a set of bits, changed in one indivisible step.
#include "vf.hpp"

#include <stdx/atomic_bitset.hpp>

#include <string_view>

using u64 = std::uint64_t;

template <auto Size, typename... Elem> struct fixture {
    using S = stdx::atomic_bitset<Size, Elem...>;
    static constexpr std::size_t N = static_cast<std::size_t>(Size);
    static constexpr u64 mask = N == 64 ? ~u64{} : (u64{1} << N) - 1;
    using natural = decltype(std::declval<S const &>().to_natural());
    using B = decltype(std::declval<S const &>().load());
    using elem = ::atomic::atomic_type_t<natural>;
};
// the bits of a bitset
template <typename B> static u64 bits(B const &b) {
    return b.template to<u64>();
}
static u64 range(u64 lo, u64 hi) {
    u64 const up = hi == 63 ? ~u64{} : (u64{1} << (hi + 1)) - 1;
    return up & ~((u64{1} << lo) - 1);
}

// ---- one access at a time
enum op {
    SET1, SET1_VALUE, SET_MSB, SET_LEN, SET_ALL, SET_MSB_VALUE, SET_LEN_VALUE,
    RESET1, RESET_MSB, RESET_LEN, RESET_ALL,
    FLIP1, FLIP_MSB, FLIP_LEN, FLIP_ALL, STORE, UPDATES,
    LOAD = UPDATES, CONVERT, INDEX, TO, NATURAL, ALL, ANY, NONE, COUNT, OPS
};
static bool writes_only(op o) {
    return o == STORE or o == SET_ALL or o == RESET_ALL;
}
static bool default_order(op o) {
    return o == CONVERT or o == INDEX or o == SET1 or o == SET_MSB or
           o == SET_LEN;
}
static std::memory_order any_order(op o) {
    std::memory_order const mo = static_cast<std::memory_order>(vf::below(6));
    if (o >= LOAD) {
        vf_assume(mo != std::memory_order_release and
                  mo != std::memory_order_acq_rel);
    }
    if (writes_only(o)) {
        vf_assume(mo == std::memory_order_relaxed or
                  mo == std::memory_order_release or
                  mo == std::memory_order_seq_cst);
    }
    return mo;
}
struct args {
    u64 lo;
    u64 hi;
    u64 value;
    bool on;
    bool dflt;
    std::memory_order mo;
};
template <typename F> static args any_args(op o) {
    args r{};
    r.lo = vf::below(F::N);
    r.hi = vf::below(F::N);
    vf_assume(r.lo <= r.hi);
    r.value = vf::any<u64>() & F::mask;
    r.on = vf::any<bool>();
    r.dflt = default_order(o) ? true : vf::any<bool>();
    r.mo = any_order(o);
    return r;
}
// the value left by an operation
template <typename F> static u64 spec(op o, args const &a, u64 x) {
    u64 const one = u64{1} << a.lo;
    u64 const some = range(a.lo, a.hi);
    switch (o) {
    case SET1: return x | one;
    case SET1_VALUE: return a.on ? x | one : x & ~one;
    case SET_MSB:
    case SET_LEN: return x | some;
    case SET_MSB_VALUE:
    case SET_LEN_VALUE: return a.on ? x | some : x & ~some;
    case SET_ALL: return F::mask;
    case RESET1: return x & ~one;
    case RESET_MSB:
    case RESET_LEN: return x & ~some;
    case RESET_ALL: return 0;
    case FLIP1: return x ^ one;
    case FLIP_MSB:
    case FLIP_LEN: return x ^ some;
    case FLIP_ALL: return x ^ F::mask;
    case STORE: return a.value;
    default: return x;
    }
}
// runs an update, gives the bits of what it returns
template <typename F, typename S> static u64 update(S &s, op o, args const &a) {
    auto const i = static_cast<std::size_t>(a.lo);
    auto const l = static_cast<stdx::lsb_t>(a.lo);
    auto const m = static_cast<stdx::msb_t>(a.hi);
    auto const n = static_cast<stdx::length_t>(a.hi - a.lo + 1);
    switch (o) {
    case SET1: return bits(s.set(i));
    case SET1_VALUE:
        return bits(a.dflt ? s.set(i, a.on) : s.set(i, a.on, a.mo));
    case SET_MSB: return bits(s.set(l, m));
    case SET_LEN: return bits(s.set(l, n));
    case SET_MSB_VALUE:
        return bits(a.dflt ? s.set(l, m, a.on) : s.set(l, m, a.on, a.mo));
    case SET_LEN_VALUE:
        return bits(a.dflt ? s.set(l, n, a.on) : s.set(l, n, a.on, a.mo));
    case SET_ALL: {
        S &r = a.dflt ? s.set() : s.set(a.mo);
        vf_assert(&r == &s, "set of all bits gives the object");
        return 0;
    }
    case RESET1: return bits(a.dflt ? s.reset(i) : s.reset(i, a.mo));
    case RESET_MSB: return bits(a.dflt ? s.reset(l, m) : s.reset(l, m, a.mo));
    case RESET_LEN: return bits(a.dflt ? s.reset(l, n) : s.reset(l, n, a.mo));
    case RESET_ALL: {
        S &r = a.dflt ? s.reset() : s.reset(a.mo);
        vf_assert(&r == &s, "reset of all bits gives the object");
        return 0;
    }
    case FLIP1: return bits(a.dflt ? s.flip(i) : s.flip(i, a.mo));
    case FLIP_MSB: return bits(a.dflt ? s.flip(l, m) : s.flip(l, m, a.mo));
    case FLIP_LEN: return bits(a.dflt ? s.flip(l, n) : s.flip(l, n, a.mo));
    case FLIP_ALL: return bits(a.dflt ? s.flip() : s.flip(a.mo));
    default: {
        typename F::B const b{a.value};
        if (a.dflt) {
            s.store(b);
        } else {
            s.store(b, a.mo);
        }
        return 0;
    }
    }
}
static u64 ones(u64 x) {
    u64 r = 0;
    vf::each<64>([&](std::size_t i) { r += (x >> i) & 1u; });
    return r;
}
// an observer gives what it should when the bits are x
template <typename F, typename S>
static void observe(S const &s, op o, args const &a, u64 *got) {
    switch (o) {
    case LOAD: *got = bits(a.dflt ? s.load() : s.load(a.mo)); return;
    case CONVERT: {
        typename F::B const b = s;
        *got = bits(b);
        return;
    }
    case INDEX: *got = s[static_cast<std::size_t>(a.lo)]; return;
    case TO:
        *got = a.dflt ? s.template to<u64>() : s.template to<u64>(a.mo);
        return;
    case NATURAL: *got = a.dflt ? s.to_natural() : s.to_natural(a.mo); return;
    case ALL: *got = a.dflt ? s.all() : s.all(a.mo); return;
    case ANY: *got = a.dflt ? s.any() : s.any(a.mo); return;
    case NONE: *got = a.dflt ? s.none() : s.none(a.mo); return;
    default: *got = a.dflt ? s.count() : s.count(a.mo); return;
    }
}
template <typename F> static u64 view(op o, args const &a, u64 x) {
    switch (o) {
    case INDEX: return (x >> a.lo) & 1u;
    case ALL: return x == F::mask;
    case ANY: return x != 0;
    case NONE: return x == 0;
    case COUNT: return ones(x);
    default: return x;
    }
}
template <typename F> static void access(op o) {
    using elem = typename F::elem;
    u64 const init = vf::any<u64>();
    typename F::S s{init};
    args const a = any_args<F>(o);
    vf_at::reset();
    vf_at::values = F::mask;
    auto const order =
        a.dflt ? std::memory_order_seq_cst : a.mo;
    if (o < UPDATES) {
        u64 const r = update<F>(s, o, a);
        vf_at::once<elem>(s, order);
        u64 const was = static_cast<u64>(vf_at::before<elem>);
        u64 const now = static_cast<u64>(vf_at::after<elem>);
        if (not writes_only(o)) {
            vf_assert(r == was, "an update gives the previous bits");
        }
        vf_assert((now & F::mask) == spec<F>(o, a, was),
                  "exactly the named bits change");
        vf_assert((now & ~F::mask) == 0, "inv: no bit beyond the size is set");
        vf_reach("update");
    } else {
        u64 r = 0;
        observe<F>(s, o, a, &r);
        vf_at::once<elem>(s, order);
        u64 const was = static_cast<u64>(vf_at::before<elem>);
        vf_assert(vf_at::after<elem> == vf_at::before<elem>,
                  "an observer leaves the value");
        vf_assert(r == view<F>(o, a, was), "an observer sees exactly the bits");
        vf_reach("observe");
    }
}
// ---- without other threads: an update, then every observer
template <typename F> static void look(typename F::S const &s, u64 x) {
    args const a = any_args<F>(LOAD);
    // (the count of many bits is costly: seen to once, with access)
    vf::each<(F::N > 16 ? COUNT : OPS) - LOAD>([&](std::size_t i) {
        op const o = static_cast<op>(LOAD + i);
        u64 r = 0;
        observe<F>(s, o, a, &r);
        vf_assert(r == view<F>(o, a, x), "every observer sees exactly the bits");
    });
    vf_assert(F::S::size() == F::N and s.size == F::N, "the size is that of the type");
}
template <typename F> static void history(op o) {
    u64 const init = vf::any<u64>();
    typename F::S s{init};
    args const a = any_args<F>(o);
    args const b = any_args<F>(FLIP_ALL);
    update<F>(s, o, a);
    u64 const x = spec<F>(o, a, init & F::mask);
    look<F>(s, x);
    update<F>(s, FLIP_ALL, b);
    look<F>(s, x ^ F::mask);
    vf_reach("history");
}
template <typename F> static void construct() {
    typename F::S const none{};
    look<F>(none, 0);
    typename F::S const full{stdx::all_bits};
    look<F>(full, F::mask);
    u64 const i = vf::below(F::N);
    u64 const j = vf::below(F::N);
    typename F::S const some{stdx::place_bits, i, j};
    look<F>(some, (u64{1} << i) | (u64{1} << j));
    u64 const v = vf::any<u64>();
    typename F::S const from{v};
    look<F>(from, v & F::mask);
    vf_reach("constructed");
}
template <typename F> static void from_string(std::size_t len) {
    constexpr std::size_t L = 6;
    char text[L];
    vf::each<L>([&](std::size_t i) { text[i] = vf::any<char>(); });
    std::size_t const pos = vf::upto(len);
    std::size_t const n = vf::any<std::size_t>();
    char const one = vf::any<char>();
    std::string_view const sv{text, len};
    bool const all = vf::any<bool>();
    bool const plain = vf::any<bool>();
    u64 x = 0;
    // the last of the chosen characters is bit 0; at most N are used, from the
    // first on
    std::size_t const from = all ? 0 : pos;
    std::size_t const most = all or n > len - from ? len - from : n;
    std::size_t const used = most < F::N ? most : F::N;
    char const o = plain or all ? '1' : one;
    vf::each<L>([&](std::size_t i) {
        if (i < used and text[from + used - 1 - i] == o) {
            x |= u64{1} << i;
        }
    });
    if (all) {
        typename F::S const s{sv};
        look<F>(s, x);
    } else if (plain) {
        typename F::S const s{sv, pos, n};
        look<F>(s, x);
    } else {
        typename F::S const s{sv, pos, n, one};
        look<F>(s, x);
    }
    vf_reach("from string");
}
enum struct bit4 { zero, one, two, three, MAX };

#define ON(NAME, ...)                                                          \
    using f_##NAME = fixture<__VA_ARGS__>;                                     \
    VF_CASES(access_##NAME, OPS) { access<f_##NAME>(static_cast<op>(vf_case)); } \
    VF_CASES(history_##NAME, UPDATES) {                                        \
        history<f_##NAME>(static_cast<op>(vf_case));                           \
    }                                                                          \
    VF_HARNESS(construct_##NAME) { construct<f_##NAME>(); }                    \
    VF_CASES(string_##NAME, 7) { from_string<f_##NAME>(vf_case); }
ON(8, 8)
ON(5, 5)
ON(11, 11)
#ifndef VF_ATOMIC_CFG
ON(1, 1)
ON(3_u32, 3, std::uint32_t)
ON(32, 32)
ON(37, 37)
ON(64, 64)
#endif

// positions named by an enumeration
VF_HARNESS(by_enum) {
    using S = stdx::atomic_bitset<bit4::MAX>;
    u64 const init = vf::any<u64>();
    S s{init};
    u64 const i = vf::below(4);
    bit4 const e = static_cast<bit4>(i);
    u64 x = init & 15u;
    vf_assert(bits(s.set(e)) == x, "set by enumerator gives the previous bits");
    x |= u64{1} << i;
    vf_assert(s[e] and s.to<u64>() == x, "set by enumerator");
    vf_assert(bits(s.reset(e)) == x, "reset by enumerator gives the previous bits");
    x &= ~(u64{1} << i);
    vf_assert(not s[e] and s.to<u64>() == x, "reset by enumerator");
    vf_assert(bits(s.flip(e)) == x, "flip by enumerator gives the previous bits");
    x ^= u64{1} << i;
    vf_assert(s.to<u64>() == x, "flip by enumerator");
    enum struct wide : std::uint32_t {};
    vf_assert(s.to<wide>() == static_cast<wide>(x), "conversion to an enumeration");
    vf_reach("by enum");
}
