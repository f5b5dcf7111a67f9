#pragma once
// Assumed contract of the platform's atomic primitives (the baremetal
// concurrency library is not part of the tree): each call is one indivisible
// access in the order asked for.  Before and after it other threads may leave
// any value, so code that reads or writes the object in any other way, or in
// two steps, does not meet its specification.
#include "vf.hpp"

#include <atomic>
#include <cstdint>
#include <type_traits>

template <typename T> struct vf_interfere {
    static T value() {
        if constexpr (std::is_enum_v<T>) {
            return static_cast<T>(vf::any<std::underlying_type_t<T>>());
        } else if constexpr (std::is_pointer_v<T>) {
            return reinterpret_cast<T>(vf::any<std::uintptr_t>() & ~7ull);
        } else {
            return vf::any<T>();
        }
    }
};

namespace vf_at {
inline bool concurrent = false;
// bits that the object may have set: a wide element of a bool is only ever 0
// or 1
inline std::uint64_t values = ~std::uint64_t{};
inline unsigned accesses = 0;
inline std::memory_order order{};
inline void const *where = nullptr;
template <typename T> inline T before{};
template <typename T> inline T after{};
template <typename T> inline T last{};
inline void reset() {
    accesses = 0;
    where = nullptr;
    concurrent = true;
}
template <typename T> void interfere(T &t) {
    if (concurrent) {
        t = vf_interfere<T>::value();
        if constexpr (std::is_integral_v<T>) {
            vf_assume((static_cast<std::uint64_t>(t) & ~values) == 0);
        }
    }
}
template <typename T, typename F> T access(T &t, std::memory_order mo, F f) {
    interfere(t);
    T const old = t;
    T const upd = f(old);
    t = upd;
    ++accesses;
    order = mo;
    where = &t;
    before<T> = old;
    after<T> = upd;
    interfere(t);
    last<T> = t;
    return old;
}
// the object was accessed once, in the given order, and in no other way
template <typename T, typename O>
void once(O const &o, std::memory_order mo) {
    vf_assert(accesses == 1, "one access");
    auto const *const p = static_cast<char const *>(where);
    auto const *const b = static_cast<char const *>(static_cast<void const *>(&o));
    vf_assert(p >= b and p + sizeof(T) <= b + sizeof(O),
              "the access is to the value of the object");
    vf_assert(order == mo, "the access has the memory order asked for");
    vf_assert(*static_cast<T const *>(where) == last<T>,
              "nothing is written besides");
}
} // namespace vf_at

namespace atomic {
template <typename T> struct atomic_type {
    using type = T;
};
template <typename T> using atomic_type_t = typename atomic_type<T>::type;
template <typename T>
constexpr inline auto alignment_of = alignof(std::atomic<atomic_type_t<T>>);

template <typename T>
T load(T const &t, std::memory_order mo = std::memory_order_seq_cst) {
    return vf_at::access(const_cast<T &>(t), mo, [](T x) { return x; });
}
template <typename T>
void store(T &t, std::type_identity_t<T> v,
           std::memory_order mo = std::memory_order_seq_cst) {
    vf_at::access(t, mo, [&](T) { return v; });
}
template <typename T>
T exchange(T &t, std::type_identity_t<T> v,
           std::memory_order mo = std::memory_order_seq_cst) {
    return vf_at::access(t, mo, [&](T) { return v; });
}
#define VF_FETCH(NAME, OP)                                                     \
    template <typename T>                                                      \
    T fetch_##NAME(T &t, std::type_identity_t<T> v,                            \
                   std::memory_order mo = std::memory_order_seq_cst) {         \
        return vf_at::access(t, mo, [&](T x) {                                 \
            return static_cast<T>(static_cast<std::uint64_t>(x)                \
                                      OP static_cast<std::uint64_t>(v));       \
        });                                                                    \
    }
VF_FETCH(add, +)
VF_FETCH(sub, -)
VF_FETCH(and, &)
VF_FETCH(or, |)
VF_FETCH(xor, ^)
#undef VF_FETCH
} // namespace atomic
#ifdef VF_ATOMIC_CFG
#include VF_ATOMIC_CFG
#endif
