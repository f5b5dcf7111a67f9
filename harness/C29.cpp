// the freestanding formatter: what is reserved is written, and it is the text
// of the value.
#include "vf_consteval.hpp"
#define SIMULATE_FREESTANDING
#include "vf.hpp"

#include <stdx/ct_format.hpp>

#include <limits>
#include <type_traits>

namespace {
using namespace stdx::literals;
namespace fd = stdx::fmt::detail;

constexpr char DIGITS[] = "0123456789abcdef";

// no value has more than MAX digits
template <typename I, int BASE, std::size_t MAX> void fits() {
    I rest = vf::any<I>();
    std::uint64_t top = static_cast<std::uint64_t>(std::numeric_limits<I>::max()) +
                        (std::is_signed_v<I> ? 1 : 0);
    vf::each<MAX>([&](auto) {
        rest = static_cast<I>(rest / static_cast<I>(BASE));
        top /= BASE;
        bool const ok = rest < 0 ? 0 - static_cast<std::uint64_t>(rest) <= top
                                 : static_cast<std::uint64_t>(rest) <= top;
        vf_assert(ok, "at most what the largest value leaves");
        vf_assume(ok);
    });
    vf_assert(rest == 0, "no more digits than that");
    vf_reach("digits");
}
// v as text, by number of digits and sign: counted and written in full, the sign only
// if negative, no superfluous zero, each digit in its place
template <typename I, int BASE, std::size_t MAX>
void integer(std::size_t const which) {
    I const v = vf::any<I>();
    std::size_t const more = std::is_signed_v<I> ? which >> 1 : which;
    bool const minus = std::is_signed_v<I> and (which & 1) == 1;
    vf_assume((v < 0) == minus);
    // the digits from the last to the first
    char digits[MAX];
    I rest = v;
    for (std::size_t k = 0; k <= more; ++k) {
        if (k > 0) {
            vf_assume(rest != 0);
        }
        int const d = static_cast<int>(rest % static_cast<I>(BASE));
        digits[k] = DIGITS[d < 0 ? -d : d];
        rest = static_cast<I>(rest / static_cast<I>(BASE));
    }
    vf_assume(rest == 0);
    fd::fmt_spec const spec{.len = BASE == 10 ? 2 : 4, .base = BASE};
    std::size_t const size = fd::formatted_size(spec, v);
    vf_assert(size == more + 1 + (minus ? 1 : 0), "room for sign and digits");
    char buf[MAX + 3];
    vf::each<MAX + 3>([&](auto i) { buf[i] = 0; });
    char *const first = buf + 1;
    char *const last = fd::format_to(spec, first, v);
    vf_assert(last == first + size, "as many characters as were reserved");
    vf_assert(buf[0] == 0 and *last == 0, "nothing else is written");
    char *const begin = minus ? first + 1 : first;
    vf_assert(not minus or *first == '-', "the sign of a negative number");
    bool ok = true;
    for (std::size_t k = 0; k <= more; ++k) {
        ok = ok and begin[k] == digits[more - k];
    }
    vf_assert(ok, "each digit in its place");
    vf_reach("formatted");
}
} // namespace
#define INTEGER(T, B, MAX) \
    VF_HARNESS(fits_##T##_##B) { fits<T, B, MAX>(); } \
    VF_CASES(integer_##T##_##B, MAX * (std::is_signed_v<T> ? 2 : 1)) { integer<T, B, MAX>(vf_case); }
using i8 = std::int8_t;
using i16 = std::int16_t;
using i32 = std::int32_t;
using i64 = std::int64_t;
using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;
INTEGER(i8, 10, 3)
INTEGER(i8, 16, 2)
INTEGER(u8, 10, 3)
INTEGER(u8, 16, 2)
INTEGER(i16, 10, 5)
INTEGER(i16, 16, 4)
INTEGER(u16, 10, 5)
INTEGER(u16, 16, 4)
INTEGER(i32, 10, 10)
INTEGER(i32, 16, 8)
INTEGER(u32, 10, 10)
INTEGER(u32, 16, 8)
INTEGER(i64, 10, 19)
INTEGER(i64, 16, 16)
INTEGER(u64, 10, 20)
INTEGER(u64, 16, 16)
