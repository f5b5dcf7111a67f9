// byterator: a cursor over the bytes of a sequence of objects.
#include "vf.hpp"

#include <stdx/byterator.hpp>

#include <array>
#include <compare>
#include <cstddef>
#include <cstring>
#include <type_traits>

using u8 = std::uint8_t;
using u16 = std::uint16_t;
using u32 = std::uint32_t;
using u64 = std::uint64_t;

constexpr std::size_t W = 10;          // words
constexpr std::size_t NB = W * 4;      // bytes

struct buffer {
    alignas(16) u32 w[W];
    [[nodiscard]] u8 at(std::size_t i) const {
        return reinterpret_cast<u8 const *>(w)[i];
    }
    [[nodiscard]] std::byte *addr(std::size_t i) {
        return reinterpret_cast<std::byte *>(w) + i;
    }
};
static void fill(buffer &b) {
    vf::each<W>([&](std::size_t i) { b.w[i] = vf::any<u32>(); });
}
// a byterator at byte p of the buffer
static auto at(buffer &b, std::size_t p) {
    auto it = stdx::byterator{b.w};
    it += static_cast<std::ptrdiff_t>(p);
    return it;
}
// little endian value at byte p
template <typename V> static V image(buffer const &b, std::size_t p) {
    u64 r = 0;
    vf::each<sizeof(V)>(
        [&](std::size_t k) { r |= u64{b.at(p + k)} << (8 * k); });
    return static_cast<V>(r);
}

template <typename V, typename Peek, typename Read, typename Adv>
static void reads(Peek peek, Read read, Adv adv) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - sizeof(V));
    auto it = at(b, p);
    V const want = image<V>(b, p);
    vf_assert(it.operator->() == b.addr(p), "position");
    vf_assert(peek(it) == want, "peek gives the value there");
    vf_assert(it.operator->() == b.addr(p), "peek does not move");
    vf_assert(read(it) == want, "read gives the value there");
    vf_assert(it.operator->() == b.addr(p + sizeof(V)),
              "read moves by the size of the type");
    auto jt = at(b, p);
    auto &r = adv(jt);
    vf_assert(jt.operator->() == b.addr(p + sizeof(V)) and &r == &jt,
              "advance moves by the size of the type");
    vf_assert(it == jt, "the same place");
    vf_reach("read");
}
#define READS(V)                                                               \
    VF_HARNESS(read_##V) {                                                     \
        reads<V>([](auto &i) { return i.template peek<V>(); },                 \
                 [](auto &i) { return i.template read<V>(); },                 \
                 [](auto &i) -> auto & { return i.template advance<V>(); });   \
    }                                                                          \
    VF_HARNESS(read_named_##V) {                                               \
        reads<V>([](auto &i) { return i.peek##V(); },                          \
                 [](auto &i) { return i.read##V(); },                          \
                 [](auto &i) -> auto & { return i.advance##V(); });            \
    }
READS(u8)
READS(u16)
READS(u32)
READS(u64)
struct pod {
    u16 a;
    u8 b;
    u8 c;
    [[nodiscard]] bool operator==(pod const &) const = default;
};
VF_HARNESS(read_struct) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - sizeof(pod));
    auto it = at(b, p);
    pod const x = it.peek<pod>();
    vf_assert(x.a == image<u16>(b, p) and x.b == b.at(p + 2) and
                  x.c == b.at(p + 3),
              "peek a struct");
    pod const y = it.read<pod>();
    vf_assert(x == y and it.operator->() == b.addr(p + 4), "read a struct");
    vf_reach("struct");
}
enum struct e8 : u8 {};
VF_HARNESS(read_converted) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - 4);
    auto it = at(b, p);
    auto const w = it.peek<u8, u32>();
    vf_assert((std::is_same_v<decltype(w), u32 const>) and w == b.at(p),
              "peek as another type");
    auto const e = it.readu8<e8>();
    vf_assert(e == static_cast<e8>(b.at(p)) and
                  it.operator->() == b.addr(p + 1),
              "read as an enumeration");
    auto const d = it.read<u16, u64>();
    vf_assert(d == image<u16>(b, p + 1) and it.operator->() == b.addr(p + 3),
              "read as another type moves by the size read");
    vf_reach("converted");
}

template <typename V, typename Write> static void writes(Write write) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - sizeof(V));
    std::size_t const j = vf::below(NB);
    u8 const was = b.at(j);
    V const v = vf::any<V>();
    auto it = at(b, p);
    write(it, v);
    bool const in = j >= p and j < p + sizeof(V);
    vf_assert(b.at(j) ==
                  (in ? static_cast<u8>(u64{v} >> (8 * (in ? j - p : 0)))
                      : was),
              "write stores the value and nothing else");
    vf_assert(it.operator->() == b.addr(p + sizeof(V)),
              "write moves by the size of the type");
    auto jt = at(b, p);
    vf_assert(jt.template peek<V>() == v, "what was written is read");
    vf_reach("write");
}
#define WRITES(V)                                                              \
    VF_HARNESS(write_##V) {                                                    \
        writes<V>([](auto &i, V v) { i.write(v); });                           \
    }                                                                          \
    VF_HARNESS(write_named_##V) {                                              \
        writes<V>([](auto &i, V v) { i.write##V(v); });                        \
    }
WRITES(u8)
WRITES(u16)
WRITES(u32)
WRITES(u64)
VF_HARNESS(write_narrowed) {
    writes<u8>([](auto &i, u8 v) { i.writeu8(u32{v} | 0xff00u); });
}
VF_HARNESS(write_narrowed16) {
    writes<u16>([](auto &i, u16 v) { i.writeu16(u64{v} | 0xff0000u); });
}

VF_HARNESS(arithmetic) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB);
    std::size_t const q = vf::upto(NB);
    auto const d = static_cast<std::ptrdiff_t>(q) -
                   static_cast<std::ptrdiff_t>(p);
    auto const x = at(b, p);
    auto const y = at(b, q);
    vf_assert(y - x == d, "difference in bytes");
    vf_assert(x + d == y and d + x == y and y - d == x, "plus and minus");
    vf_assert((x == y) == (p == q) and (x != y) == (p != q), "equality");
    vf_assert((x < y) == (p < q) and (x <= y) == (p <= q) and
                  (x > y) == (p > q) and (x >= y) == (p >= q) and
                  ((x <=> y) == 0) == (p == q),
              "order");
    auto z = x;
    vf_assert(&(z += d) == &z and z == y, "+=");
    vf_assert(&(z -= d) == &z and z == x, "-=");
    vf_assert(&z.advance(d) == &z and z == y, "advance by bytes");
    z = x;
    if (p < NB) {
        vf_assert(&*x == b.addr(p) and *x == std::byte{b.at(p)},
                  "dereference");
        auto &r = ++z;
        vf_assert(&r == &z and z.operator->() == b.addr(p + 1), "++i");
        z = x;
        auto const o = z++;
        vf_assert(o == x and z.operator->() == b.addr(p + 1), "i++");
        vf_reach("increment");
    }
    z = x;
    if (p > 0) {
        auto &r = --z;
        vf_assert(&r == &z and z.operator->() == b.addr(p - 1), "--i");
        z = x;
        auto const o = z--;
        vf_assert(o == x and z.operator->() == b.addr(p - 1), "i--");
        vf_reach("decrement");
    }
    if (q < NB) {
        z = x;
        vf_assert(&z[d] == b.addr(q) and &x[d] == b.addr(q), "indexing");
        std::size_t const j = vf::below(NB);
        u8 const was = b.at(j);
        u8 const v = vf::any<u8>();
        z[d] = std::byte{v};
        vf_assert(b.at(j) == (j == q ? v : was),
                  "writing through an index changes that byte");
        vf_reach("index");
    }
    std::size_t const k = vf::below(W);
    u32 *const e = b.w + k;
    vf_assert((x == e) == (p == 4 * k) and (x != e) == (p != 4 * k) and
                  (x < e) == (p < 4 * k) and (x > e) == (p > 4 * k),
              "comparison with an iterator of the sequence");
    vf_reach("arithmetic");
}

template <typename V> static void aligned() {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - 8);
    constexpr std::size_t al = alignof(V);
    std::size_t const up = (p + al - 1) / al * al;
    std::size_t const n = vf::upto((NB - up) / sizeof(V));
    auto it = at(b, p);
    auto &r = it.template advance_to_alignment<V>();
    vf_assert(&r == &it and it.operator->() == b.addr(up),
              "moves to the next aligned address");
    if (p % al == 0) {
        vf_assert(it.operator->() == b.addr(p),
                  "does not move when already aligned");
        vf_reach("already aligned");
    }
    auto jt = at(b, p);
    jt.template advance_to_alignment<V>(static_cast<std::ptrdiff_t>(n));
    vf_assert(jt.operator->() == b.addr(up + n * sizeof(V)),
              "then moves on by n objects");
    std::size_t const m = vf::upto(up / sizeof(V));
    auto kt = at(b, p);
    kt.template advance_to_alignment<V>(-static_cast<std::ptrdiff_t>(m));
    vf_assert(kt.operator->() == b.addr(up - m * sizeof(V)),
              "or back by n objects");
    vf_reach("aligned");
}
VF_HARNESS(align_u8) { aligned<u8>(); }
VF_HARNESS(align_u16) { aligned<u16>(); }
VF_HARNESS(align_u32) { aligned<u32>(); }
VF_HARNESS(align_u64) { aligned<u64>(); }
VF_HARNESS(align_default) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB);
    auto it = at(b, p);
    it.advance_to_alignment();
    vf_assert(it.operator->() == b.addr(p), "bytes are always aligned");
    vf_reach("default");
}

VF_HARNESS(const_sequence) {
    buffer b;
    fill(b);
    std::size_t const p = vf::upto(NB - 4);
    u32 const *c = b.w;
    auto it = stdx::byterator{c};
    it += static_cast<std::ptrdiff_t>(p);
    vf_assert((std::is_same_v<decltype(*it), std::byte const &>),
              "bytes of a constant sequence are constant");
    vf_assert(it.read<u32>() == image<u32>(b, p), "read from constants");
    std::array<u16, 4> a{vf::any<u16>(), vf::any<u16>(), vf::any<u16>(),
                         vf::any<u16>()};
    auto jt = stdx::byterator{a.begin()};
    auto const x = jt.readu16();
    auto const y = jt.readu16();
    vf_assert(x == a[0] and y == a[1] and jt == a.begin() + 2,
              "array iterators");
    vf_reach("const");
}
