// saturate_cast: clamping conversion between integral types.
#include "vf.hpp"

#include <stdx/numeric.hpp>

#include <limits>

__extension__ using i128 = __int128;

template <typename To, typename From> static void one() {
    From f = vf::any<From>();
    i128 const v = f;
    i128 const lo = std::numeric_limits<To>::min();
    i128 const hi = std::numeric_limits<To>::max();
    i128 const want = v < lo ? lo : v > hi ? hi : v;
    vf_assert(static_cast<i128>(stdx::saturate_cast<To>(f)) == want,
              "saturate_cast clamps to the target range");
    vf_reach("cast");
}
template <typename From> static void from() {
    one<std::int8_t, From>();
    one<std::uint8_t, From>();
    one<std::int16_t, From>();
    one<std::uint16_t, From>();
    one<std::int32_t, From>();
    one<std::uint32_t, From>();
    one<std::int64_t, From>();
    one<std::uint64_t, From>();
    one<long long, From>();
    one<unsigned long long, From>();
    one<char, From>();
}
VF_HARNESS(from_i8) { from<std::int8_t>(); }
VF_HARNESS(from_u8) { from<std::uint8_t>(); }
VF_HARNESS(from_i16) { from<std::int16_t>(); }
VF_HARNESS(from_u16) { from<std::uint16_t>(); }
VF_HARNESS(from_i32) { from<std::int32_t>(); }
VF_HARNESS(from_u32) { from<std::uint32_t>(); }
VF_HARNESS(from_i64) { from<std::int64_t>(); }
VF_HARNESS(from_u64) { from<std::uint64_t>(); }
VF_HARNESS(from_ll) { from<long long>(); }
VF_HARNESS(from_ull) { from<unsigned long long>(); }
VF_HARNESS(from_char) { from<char>(); }
