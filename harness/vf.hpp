#pragma once
// Specification primitives of the contract harnesses.
//
//   vf_nondet()            an arbitrary 64-bit value (universally quantified)
//   vf_assume(c)           requires
//   vf_assert(c, "name")   ensures; "name" must be a literal
//   vf_reach("name")       cover point: the run errors out unless it is reachable
//
// The same source is translated for the verifier and compiled natively to
// replay a counterexample against the real headers.
#include <cstddef>
#include <cstdint>
#include <utility>

#ifdef VF_NATIVE
#include <cstdio>
#include <cstdlib>
#include <cstring>
struct vf_reg {
    char const *name;
    void (*fn)();
    vf_reg *next;
    static inline vf_reg *head = nullptr;
    vf_reg(char const *n, void (*f)()) : name{n}, fn{f}, next{head} {
        head = this;
    }
};
inline std::uint64_t *vf_in = nullptr;
inline std::size_t vf_in_n = 0, vf_in_i = 0;
extern "C" inline std::uint64_t vf_nondet() {
    if (vf_in_i >= vf_in_n) {
        // the trace ended before this input was read: any value will do
        ++vf_in_i;
        return 0;
    }
    return vf_in[vf_in_i++];
}
extern "C" inline void vf_assume(bool c) {
    if (not c) {
        std::printf("VF-ASSUME-FALSE\n");
        std::fflush(stdout);
        std::_Exit(77);
    }
}
extern "C" inline void vf_assert(bool c, char const *n) {
    if (not c) {
        std::printf("VF-ASSERT-FAILED %s\n", n);
        std::fflush(stdout);
        std::_Exit(1);
    }
}
extern "C" inline void vf_reach(char const *) {}
#define VF_HARNESS(NAME)                                                       \
    extern "C" void vf_h_##NAME();                                             \
    static vf_reg vf_r_##NAME{#NAME, &vf_h_##NAME};                            \
    extern "C" void vf_h_##NAME()
int main(int argc, char **argv) {
    if (argc < 2) {
        return 2;
    }
    vf_in_n = static_cast<std::size_t>(argc - 2);
    vf_in = static_cast<std::uint64_t *>(
        std::calloc(vf_in_n + 1, sizeof(std::uint64_t)));
    for (int i = 2; i < argc; ++i) {
        vf_in[i - 2] = std::strtoull(argv[i], nullptr, 0);
    }
    for (auto *r = vf_reg::head; r != nullptr; r = r->next) {
        if (std::strcmp(r->name, argv[1]) == 0) {
            r->fn();
            std::printf("VF-DONE\n");
            return 0;
        }
    }
    return 2;
}
#else
extern "C" {
std::uint64_t vf_nondet();
void vf_assume(bool);
void vf_assert(bool, char const *);
void vf_reach(char const *);
}
#define VF_HARNESS(NAME) extern "C" void vf_h_##NAME()
#endif

// A harness decided case by case: the body sees a constant case number, the
// runner generates one proof per case.  Decode with `vf::take`.
#define VF_CASES(NAME, COUNT)                                                  \
    extern "C" {                                                               \
    extern std::size_t const vf_nc_##NAME;                                     \
    std::size_t const vf_nc_##NAME = (COUNT);                                  \
    void vf_hc_##NAME(std::size_t vf_case);                                    \
    }                                                                          \
    VF_HARNESS(NAME) {                                                         \
        auto const c = static_cast<std::size_t>(vf_nondet());                  \
        vf_assume(c < vf_nc_##NAME);                                           \
        vf_hc_##NAME(c);                                                       \
    }                                                                          \
    void vf_hc_##NAME(std::size_t vf_case)

namespace vf {
template <typename T = std::uint64_t> inline T any() {
    return static_cast<T>(vf_nondet());
}
template <> inline bool any<bool>() { return (vf_nondet() & 1u) != 0; }
// any value in [0, n)
inline std::size_t below(std::size_t n) {
    auto const v = static_cast<std::size_t>(vf_nondet());
    vf_assume(v < n);
    return v;
}
inline std::size_t upto(std::size_t n) {
    auto const v = static_cast<std::size_t>(vf_nondet());
    vf_assume(v <= n);
    return v;
}
// calls f(0), ..., f(N-1) without a loop
template <std::size_t N, typename F> inline void each(F f) {
    [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        (f(std::size_t{Is}), ...);
    }(std::make_index_sequence<N>{});
}
// splits a digit in [0, n) off a case number
inline std::size_t take(std::size_t &c, std::size_t n) {
    auto const r = c % n;
    c /= n;
    return r;
}
} // namespace vf
