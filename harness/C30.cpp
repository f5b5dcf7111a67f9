// atomic: each operation is one indivisible access with the right effect.
#include "vf.hpp"

#include <stdx/atomic.hpp>

#include <limits>

enum struct E : std::uint8_t {};
struct pair {
    std::uint16_t a;
    std::uint16_t b;
    friend bool operator==(pair const &, pair const &) = default;
};
template <> struct vf_interfere<pair> {
    static pair value() {
        pair p{};
        p.a = vf::any<std::uint16_t>();
        p.b = vf::any<std::uint16_t>();
        return p;
    }
};
template <typename T> static T arbitrary() { return vf_interfere<T>::value(); }

enum op {
    LOAD, STORE, EXCHANGE, CONVERT, ASSIGN,
    FETCH_ADD, FETCH_SUB, FETCH_AND, FETCH_OR, FETCH_XOR,
    ADD, SUB, AND, OR, XOR, PRE_INC, POST_INC, PRE_DEC, POST_DEC, OPS
};
constexpr std::size_t VALUE_OPS = FETCH_ADD;

static std::memory_order any_order(op o) {
    std::memory_order const mo = static_cast<std::memory_order>(vf::below(6));
    if (o == LOAD) {
        vf_assume(mo != std::memory_order_release and
                  mo != std::memory_order_acq_rel);
    }
    if (o == STORE) {
        vf_assume(mo == std::memory_order_relaxed or
                  mo == std::memory_order_release or
                  mo == std::memory_order_seq_cst);
    }
    return mo;
}
template <typename T> struct effect {
    T value;  // left in the object
    T result; // returned
};
template <typename T> static T wrap(std::uint64_t x) { return static_cast<T>(x); }

template <typename T> static effect<T> spec(op o, T x, T t) {
    auto const a = static_cast<std::uint64_t>(x);
    auto const b = static_cast<std::uint64_t>(t);
    switch (o) {
    case FETCH_ADD: return {wrap<T>(a + b), x};
    case FETCH_SUB: return {wrap<T>(a - b), x};
    case FETCH_AND: return {wrap<T>(a & b), x};
    case FETCH_OR: return {wrap<T>(a | b), x};
    case FETCH_XOR: return {wrap<T>(a ^ b), x};
    case ADD: return {wrap<T>(a + b), wrap<T>(a + b)};
    case SUB: return {wrap<T>(a - b), wrap<T>(a - b)};
    case AND: return {wrap<T>(a & b), wrap<T>(a & b)};
    case OR: return {wrap<T>(a | b), wrap<T>(a | b)};
    case XOR: return {wrap<T>(a ^ b), wrap<T>(a ^ b)};
    case PRE_INC: return {wrap<T>(a + 1), wrap<T>(a + 1)};
    case POST_INC: return {wrap<T>(a + 1), x};
    case PRE_DEC: return {wrap<T>(a - 1), wrap<T>(a - 1)};
    default: return {wrap<T>(a - 1), x};
    }
}
template <typename T> static T run(stdx::atomic<T> &a, op o, T t, bool dflt,
                                   std::memory_order mo) {
    if constexpr (not std::is_same_v<T, bool>) {
        switch (o) {
        case FETCH_ADD: return dflt ? a.fetch_add(t) : a.fetch_add(t, mo);
        case FETCH_SUB: return dflt ? a.fetch_sub(t) : a.fetch_sub(t, mo);
        case ADD: return a += t;
        case SUB: return a -= t;
        case PRE_INC: return ++a;
        case POST_INC: return a++;
        case PRE_DEC: return --a;
        case POST_DEC: return a--;
        default: break;
        }
    }
    switch (o) {
    case FETCH_AND: return dflt ? a.fetch_and(t) : a.fetch_and(t, mo);
    case FETCH_OR: return dflt ? a.fetch_or(t) : a.fetch_or(t, mo);
    case FETCH_XOR: return dflt ? a.fetch_xor(t) : a.fetch_xor(t, mo);
    case AND: return a &= t;
    case OR: return a |= t;
    default: return a ^= t;
    }
}
static bool takes_order(op o) {
    return o == LOAD or o == STORE or o == EXCHANGE or
           (o >= FETCH_ADD and o <= FETCH_XOR);
}
static bool arithmetic(op o) {
    return o == FETCH_ADD or o == FETCH_SUB or o == ADD or o == SUB or
           o >= PRE_INC;
}

template <typename T> static void once(stdx::atomic<T> const &a, op o, bool dflt,
                                       std::memory_order mo) {
    vf_at::once<::atomic::atomic_type_t<T>>(
        a, takes_order(o) and not dflt ? mo : std::memory_order_seq_cst);
}

template <typename T> static void one(op o) {
    using elem = ::atomic::atomic_type_t<T>;
    if constexpr (std::is_same_v<T, bool>) {
        if (arithmetic(o)) {
            return;
        }
    }
    T const init = arbitrary<T>();
    stdx::atomic<T> a{init};
    vf_assert(vf_at::accesses == 0 and a.load() == init,
              "constructed with the value");
    std::memory_order const mo = any_order(o);
    bool const dflt = vf::any<bool>();
    T const t = arbitrary<T>();
    vf_at::reset();
    vf_at::values = std::is_same_v<T, bool> ? 1 : ~std::uint64_t{};
    if (o == LOAD) {
        T const r = dflt ? a.load() : a.load(mo);
        once(a, o, dflt, mo);
        vf_assert(r == static_cast<T>(vf_at::before<elem>),
                  "load gives the value");
        vf_assert(vf_at::after<elem> == vf_at::before<elem>,
                  "load leaves the value");
        vf_reach("load");
    } else if (o == CONVERT) {
        T const r = a;
        once(a, o, dflt, mo);
        vf_assert(r == static_cast<T>(vf_at::before<elem>),
                  "conversion gives the value");
        vf_assert(vf_at::after<elem> == vf_at::before<elem>,
                  "conversion leaves the value");
        vf_reach("convert");
    } else if (o == STORE) {
        if (dflt) {
            a.store(t);
        } else {
            a.store(t, mo);
        }
        once(a, o, dflt, mo);
        vf_assert(static_cast<T>(vf_at::after<elem>) == t, "store leaves its value");
        vf_reach("store");
    } else if (o == ASSIGN) {
        T const r = (a = t);
        once(a, o, dflt, mo);
        vf_assert(static_cast<T>(vf_at::after<elem>) == t,
                  "assignment leaves its value");
        vf_assert(r == t, "assignment gives its value");
        vf_reach("assign");
    } else if (o == EXCHANGE) {
        T const r = dflt ? a.exchange(t) : a.exchange(t, mo);
        once(a, o, dflt, mo);
        vf_assert(static_cast<T>(vf_at::after<elem>) == t,
                  "exchange leaves its value");
        vf_assert(r == static_cast<T>(vf_at::before<elem>),
                  "exchange gives the previous value");
        vf_reach("exchange");
    } else if constexpr (std::is_integral_v<T>) {
        T const r = run(a, o, t, dflt, mo);
        once(a, o, dflt, mo);
        T const was = static_cast<T>(vf_at::before<elem>);
        effect<T> const e = spec<T>(o, was, t);
        vf_assert(static_cast<T>(vf_at::after<elem>) == e.value,
                  "the new value is that of the operation");
        vf_assert(r == e.result, "the documented value is returned");
        vf_reach("read-modify-write");
    }
}
#define ALL(NAME, T)                                                           \
    VF_CASES(ops_##NAME, OPS) { one<T>(static_cast<op>(vf_case)); }
#define VALUES(NAME, T)                                                        \
    VF_CASES(ops_##NAME, VALUE_OPS) { one<T>(static_cast<op>(vf_case)); }
ALL(u8, std::uint8_t)
ALL(i8, std::int8_t)
ALL(u16, std::uint16_t)
ALL(bool, bool)
#ifndef VF_ATOMIC_CFG
ALL(u32, std::uint32_t)
ALL(u64, std::uint64_t)
ALL(i16, std::int16_t)
ALL(i32, std::int32_t)
ALL(i64, std::int64_t)
VALUES(enum, E)
VALUES(struct, pair)
VALUES(pointer, std::uint32_t *)
#endif

VF_HARNESS(fresh) {
    stdx::atomic<std::uint32_t> a{};
    stdx::atomic<bool> b{};
    stdx::atomic<std::uint8_t> c{};
    vf_assert(a.load() == 0 and not b.load() and c.load() == 0,
              "constructed without a value it is zero");
    vf_assert(alignof(stdx::atomic<std::uint32_t>) ==
                      ::atomic::alignment_of<std::uint32_t> and
                  alignof(stdx::atomic<std::uint8_t>) >=
                      ::atomic::alignment_of<std::uint8_t>,
              "aligned as configured");
    vf_reach("fresh");
}
