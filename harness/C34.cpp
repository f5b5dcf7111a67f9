// The user-defined integer literals. Scaling literals for every value; literals
// whose text is a template argument for every pair of digits and separator.
#include "vf_consteval.hpp"

#include "vf.hpp"

#include <stdx/udls.hpp>
#include <stdx/utility.hpp>

namespace {
using u32 = std::uint32_t;
using u64 = std::uint64_t;
using namespace stdx::literals;

constexpr char text[] = "0123456789abcdefABCDEF";
constexpr u64 value_of(std::size_t i) { return i < 16 ? i : i - 6; }

// one bit for each of the three forms that has the right value
template <u64 Base, std::size_t D, typename T, std::size_t K, char... Prefix>
unsigned pair() {
    constexpr std::size_t x = K / D;
    constexpr std::size_t y = K % D;
    constexpr char a = text[x];
    constexpr char b = text[y];
    constexpr u64 n = value_of(x) * Base + value_of(y);
    constexpr u64 m = (value_of(x) * Base * Base + value_of(y)) * Base + 1u;
    return (stdx::parse_literal<T, Prefix..., a, b>() == n ? 1u : 0u) |
           (stdx::parse_literal<T, Prefix..., a, '\'', b>() == n ? 2u : 0u) |
           (stdx::parse_literal<T, Prefix..., a, '0', '\'', b, '1'>() == m
                ? 4u
                : 0u);
}
void settle(unsigned v) {
    vf_assert((v & 1u) != 0, "two digits");
    vf_assert((v & 2u) != 0, "two digits and a separator");
    vf_assert((v & 4u) != 0, "digits with a separator in the middle");
}
template <u64 Base, std::size_t D, typename T, char... Prefix> void pairs() {
    settle([]<std::size_t... Ks>(std::index_sequence<Ks...>) {
        return (pair<Base, D, T, Ks, Prefix...>() & ...);
    }(std::make_index_sequence<D * D>{}));
}
template <typename T> void decimal() {
    // the first digit of a decimal literal is not 0
    settle([]<std::size_t... Ks>(std::index_sequence<Ks...>) {
        return (pair<10, 10, T, Ks + 10>() & ...);
    }(std::make_index_sequence<90>{}));
    vf_reach("decimal");
}
template <typename T> void octal() {
    pairs<8, 8, T, '0'>();
    vf_reach("octal");
}
template <typename T> void binary() {
    pairs<2, 2, T, '0', 'b'>();
    pairs<2, 2, T, '0', 'B'>();
    vf_reach("binary");
}
template <typename T> void hex() {
    pairs<16, 22, T, '0', 'x'>();
    pairs<16, 22, T, '0', 'X'>();
    vf_reach("hex");
}
} // namespace

VF_HARNESS(decimal_u32) { decimal<u32>(); }
VF_HARNESS(decimal_u64) { decimal<u64>(); }
VF_HARNESS(octal_u32) { octal<u32>(); }
VF_HARNESS(octal_u64) { octal<u64>(); }
VF_HARNESS(binary_u32) { binary<u32>(); }
VF_HARNESS(binary_u64) { binary<u64>(); }
VF_HARNESS(hex_u32) { hex<u32>(); }
VF_HARNESS(hex_u64) { hex<u64>(); }

#define SAME_C(X) vf_assert(decltype(X##_c)::value == X, "the same number")
#define SAME_Z(X)                                                              \
    vf_assert(X##_z8->in<std::uint8_t> == X and                                \
                  X##_z16->in<std::uint16_t> == X and                          \
                  X##_z32->in<std::uint32_t> == X and                          \
                  X##_z64->in<std::uint64_t> == X,                             \
              "the same size")
VF_HARNESS(long_literals) {
    SAME_C(0);
    SAME_C(7);
    SAME_C(4294967295);
    SAME_C(4'294'967'295);
    SAME_C(1234567890);
    SAME_C(037777777777);
    SAME_C(01234567);
    SAME_C(0xFFFFFFFF);
    SAME_C(0xffff'ffff);
    SAME_C(0X89abcdef);
    SAME_C(0x01234567);
    SAME_C(0b11111111111111111111111111111111);
    SAME_C(0B1010'0101);
    SAME_Z(0);
    SAME_Z(1);
    SAME_Z(1234567);
    SAME_Z(0x1'0000'0000);
    SAME_Z(0777);
    SAME_Z(0b1011);
    vf_assert(18446744073709551615_z8->in<std::uint8_t> ==
                      18446744073709551615u and
                  0xfedc'ba98'7654'3210_z64->in<std::uint64_t> ==
                      0xfedc'ba98'7654'3210u and
                  01777777777777777777777_z16->in<std::uint16_t> ==
                      01777777777777777777777u,
              "64-bit sizes");
    vf_assert(std::is_same_v<decltype(3_c)::value_type, u32>,
              "_c makes a 32-bit constant");
    vf_reach("long literals");
}
VF_HARNESS(scale_binary) {
    u64 const n = vf::any<u64>();
    vf_assert(operator""_ki(n) == (n << 10), "_ki");
    vf_assert(operator""_Mi(n) == (n << 20), "_Mi");
    vf_assert(operator""_Gi(n) == (n << 30), "_Gi");
    vf_reach("binary scales");
}
VF_HARNESS(scale_k) {
    u64 const n = vf::any<u64>();
    vf_assert(operator""_k(n) == n * 1000u, "_k");
    vf_reach("_k");
}
VF_HARNESS(scale_M) {
    u64 const n = vf::any<u64>();
    vf_assert(operator""_M(n) == n * 1000000u, "_M");
    vf_reach("_M");
}
VF_HARNESS(scale_G) {
    u64 const n = vf::any<u64>();
    vf_assert(operator""_G(n) == n * 1000000000u, "_G");
    vf_reach("_G");
}
VF_HARNESS(positions) {
    u32 const n = vf::any<u32>();
    vf_assert(static_cast<u32>(operator""_lsb(n)) == n, "_lsb");
    vf_assert(static_cast<u32>(operator""_msb(n)) == n, "_msb");
    vf_assert(static_cast<u32>(operator""_len(n)) == n, "_len");
    std::size_t const len = vf::any<std::size_t>();
    vf_assert(operator""_true("x", len) and operator""_b("x", len) and
                  not operator""_false("x", len),
              "named booleans");
    vf_assert(decltype(operator""_0("x", len))::value == 0 and
                  decltype(operator""_1("x", len))::value == 1 and
                  decltype(operator""_2("x", len))::value == 2 and
                  decltype(operator""_3("x", len))::value == 3 and
                  decltype(operator""_4("x", len))::value == 4 and
                  decltype(operator""_5("x", len))::value == 5 and
                  decltype(operator""_6("x", len))::value == 6 and
                  decltype(operator""_7("x", len))::value == 7 and
                  decltype(operator""_8("x", len))::value == 8 and
                  decltype(operator""_9("x", len))::value == 9,
              "named small indices");
    vf_reach("positions");
}
