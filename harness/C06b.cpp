// Bit counting.
#include "vf.hpp"

#ifdef VF_FALLBACK
#include "vf_nobit.hpp"
#endif
#include <stdx/bit.hpp>

#include <array>
#include <limits>
#include <type_traits>
#include <utility>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

template <typename T> constexpr int digits = std::numeric_limits<T>::digits;

template <typename T> static bool bit(T x, int i) {
    return ((x >> i) & 1u) != 0;
}
template <typename T> static void count() {
    T x = vf::any<T>();
    int lz = 0;
    int lo = 0;
    int rz = 0;
    int ro = 0;
    int pc = 0;
    bool all_l0 = true;
    bool all_l1 = true;
    bool all_r0 = true;
    bool all_r1 = true;
    for (int i = 0; i < digits<T>; ++i) {
        bool const l = bit(x, digits<T> - 1 - i);
        bool const r = bit(x, i);
        all_l0 = all_l0 and not l;
        all_l1 = all_l1 and l;
        all_r0 = all_r0 and not r;
        all_r1 = all_r1 and r;
        lz += all_l0 ? 1 : 0;
        lo += all_l1 ? 1 : 0;
        rz += all_r0 ? 1 : 0;
        ro += all_r1 ? 1 : 0;
        pc += r ? 1 : 0;
    }
    vf_assert(stdx::countl_zero(x) == lz, "countl_zero");
    vf_assert(stdx::countl_one(x) == lo, "countl_one");
    vf_assert(stdx::countr_zero(x) == rz, "countr_zero");
    vf_assert(stdx::countr_one(x) == ro, "countr_one");
    vf_assert(stdx::popcount(x) == pc, "popcount");
    vf_assert(stdx::has_single_bit(x) == (pc == 1), "has_single_bit");
    int const width = digits<T> - lz;
    vf_assert(stdx::bit_width(x) == width, "bit_width");
    vf_assert(stdx::bit_floor(x) ==
                  (x == 0 ? T{} : static_cast<T>(T{1} << (width - 1))),
              "bit_floor is the largest power of two not above");
    if (x <= static_cast<T>(T{1} << (digits<T> - 1))) {
        T const want =
            x <= 1 ? T{1}
            : pc == 1
                ? x
                : static_cast<T>(T{1} << (width == digits<T> ? 0 : width));
        vf_assert(stdx::bit_ceil(x) == want,
                  "bit_ceil is the smallest power of two not below");
        vf_reach("bit_ceil");
    }
    vf_assert(stdx::bit_size<T>() == static_cast<std::size_t>(digits<T>),
              "bit_size");
    vf_reach("count");
}
VF_HARNESS(count8) { count<u8>(); }
VF_HARNESS(count16) { count<u16>(); }
VF_HARNESS(count32) { count<u32>(); }
VF_HARNESS(count64) { count<u64>(); }
VF_HARNESS(count_ull) { count<unsigned long long>(); }
