// bit_pack, bit_unpack, bit_destructure, byteswap and endian conversions.
#include "vf.hpp"

#ifdef VF_FALLBACK
#include "vf_nobit.hpp"
#endif
#include <stdx/bit.hpp>

#include <array>
#include <cstring>
#include <limits>
#include <type_traits>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

// part i, most significant first, of width w bits out of total bits
template <typename P, typename W> static P part(W x, unsigned i) {
    constexpr unsigned w = sizeof(P) * 8;
    constexpr unsigned n = sizeof(W) / sizeof(P);
    return static_cast<P>(u64{x} >> (w * (n - 1 - i)));
}

template <typename W, typename P, std::size_t... Is>
static void pack_unpack(std::index_sequence<Is...>) {
    P p[] = {(static_cast<void>(Is), vf::any<P>())...};
    W const w = stdx::bit_pack<W>(p[Is]...);
    for (unsigned i = 0; i < sizeof...(Is); ++i) {
        vf_assert(part<P>(w, i) == p[i], "pack is most significant first");
    }
    auto const r = stdx::bit_unpack<P>(w);
    vf_assert(r.size() == sizeof...(Is), "number of parts");
    for (unsigned i = 0; i < sizeof...(Is); ++i) {
        vf_assert(r[i] == p[i], "unpack after pack gives the parts");
    }
    W x = vf::any<W>();
    auto const u = stdx::bit_unpack<P>(x);
    for (unsigned i = 0; i < sizeof...(Is); ++i) {
        vf_assert(u[i] == part<P>(x, i), "unpack is most significant first");
    }
    vf_assert(stdx::bit_pack<W>(u[Is]...) == x,
              "pack after unpack gives the value");
    vf_reach("pack");
}
VF_HARNESS(pack_16_8) { pack_unpack<u16, u8>(std::make_index_sequence<2>{}); }
VF_HARNESS(pack_32_16) { pack_unpack<u32, u16>(std::make_index_sequence<2>{}); }
VF_HARNESS(pack_32_8) { pack_unpack<u32, u8>(std::make_index_sequence<4>{}); }
VF_HARNESS(pack_64_32) { pack_unpack<u64, u32>(std::make_index_sequence<2>{}); }
VF_HARNESS(pack_64_16) { pack_unpack<u64, u16>(std::make_index_sequence<4>{}); }
VF_HARNESS(pack_64_8) { pack_unpack<u64, u8>(std::make_index_sequence<8>{}); }

template <typename T> static void unpack_same() {
    T x = vf::any<T>();
    auto const r = stdx::bit_unpack<T>(x);
    vf_assert(r.size() == 1 and r[0] == x, "unpack to the same type");
    vf_reach("unpack same");
}
VF_HARNESS(unpack_same) {
    unpack_same<u8>();
    unpack_same<u16>();
    unpack_same<u32>();
    unpack_same<u64>();
}

template <typename T> static void swap() {
    T x = vf::any<T>();
    T y = stdx::byteswap(x);
    for (unsigned i = 0; i < sizeof(T); ++i) {
        vf_assert(part<u8>(y, i) == part<u8>(x, sizeof(T) - 1 - i),
                  "byteswap reverses the bytes");
    }
    unsigned char b[sizeof(T)];
    T be = stdx::to_be(x);
    std::memcpy(b, &be, sizeof(T));
    for (unsigned i = 0; i < sizeof(T); ++i) {
        vf_assert(b[i] == part<u8>(x, i), "to_be: big endian byte image");
    }
    T le = stdx::to_le(x);
    std::memcpy(b, &le, sizeof(T));
    for (unsigned i = 0; i < sizeof(T); ++i) {
        vf_assert(b[i] == part<u8>(x, sizeof(T) - 1 - i),
                  "to_le: little endian byte image");
    }
    vf_assert(stdx::from_be(be) == x and
                  stdx::to_be(stdx::from_be(x)) == x,
              "from_be inverts to_be");
    vf_assert(stdx::from_le(le) == x and
                  stdx::to_le(stdx::from_le(x)) == x,
              "from_le inverts to_le");
    vf_reach("swap");
}
VF_HARNESS(swap8) { swap<u8>(); }
VF_HARNESS(swap16) { swap<u16>(); }
VF_HARNESS(swap32) { swap<u32>(); }
VF_HARNESS(swap64) { swap<u64>(); }

template <typename T, std::size_t... Offsets> static void destructure() {
    T x = vf::any<T>();
    constexpr std::size_t n = sizeof...(Offsets) + 1;
    auto const r = stdx::bit_destructure<Offsets...>(x);
    vf_assert((std::is_same_v<decltype(r), std::array<T, n> const>),
              "one field more than offsets");
    std::size_t const off[] = {0, Offsets..., sizeof(T) * 8};
    u64 back = 0;
    for (std::size_t i = 0; i < n; ++i) {
        auto const w = off[i + 1] - off[i];
        u64 const f = w == 64 ? u64{x}
                              : (u64{x} >> off[i]) & ((u64{1} << w) - 1);
        vf_assert(r[i] == static_cast<T>(f),
                  "field i is the bits from offset i to offset i+1");
        back |= u64{r[i]} << off[i];
    }
    vf_assert(back == x, "the shifted fields rebuild the value");
    vf_reach("destructure");
}
VF_HARNESS(destructure8) {
    destructure<u8>();
    destructure<u8, 1>();
    destructure<u8, 4>();
    destructure<u8, 7>();
    destructure<u8, 2, 5>();
    destructure<u8, 1, 2, 3, 4, 5, 6, 7>();
}
VF_HARNESS(destructure16) {
    destructure<u16>();
    destructure<u16, 8>();
    destructure<u16, 15>();
    destructure<u16, 3, 9, 10>();
    destructure<u16, 1, 14>();
}
VF_HARNESS(destructure32) {
    destructure<u32>();
    destructure<u32, 1>();
    destructure<u32, 16>();
    destructure<u32, 31>();
    destructure<u32, 8, 16, 24>();
    destructure<u32, 5, 6, 17, 30>();
}
VF_HARNESS(destructure64) {
    destructure<u64>();
    destructure<u64, 1>();
    destructure<u64, 32>();
    destructure<u64, 33>();
    destructure<u64, 63>();
    destructure<u64, 16, 32, 48>();
    destructure<u64, 7, 31, 40, 41, 62>();
}
