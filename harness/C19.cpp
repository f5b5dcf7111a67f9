// optional: empty exactly when it holds the tombstone.
#include "vf.hpp"

#include <stdx/optional.hpp>

#include <limits>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>

using u32 = std::uint32_t;

// a value type with two fields
struct S {
    u32 v;
    u32 w;

    constexpr S(u32 x, u32 y) : v{x}, w{y} {}
    constexpr explicit S(u32 x) : v{x}, w{0} {}

    friend constexpr auto operator==(S const &a, S const &b) -> bool {
        return a.v == b.v and a.w == b.w;
    }
    friend constexpr auto operator<(S const &a, S const &b) -> bool {
        return a.v != b.v ? a.v < b.v : a.w < b.w;
    }
};
template <> struct stdx::tombstone_traits<S> {
    constexpr auto operator()() const { return S{0xffffffffu, 7u}; }
};
enum struct E : std::uint8_t {};
template <> struct stdx::tombstone_traits<E> {
    constexpr auto operator()() const { return E{0xee}; }
};

constexpr S tomb{0xffffffffu, 7u};
static S any_S() {
    u32 const v = vf::any<u32>();
    u32 const w = vf::any<u32>();
    return {v, w};
}
using O = stdx::optional<S>;

template <typename Opt, typename T>
static void holds(Opt const &o, T const &v, bool has) {
    vf_assert(o.has_value() == has and static_cast<bool>(o) == has,
              "has a value iff it is not the tombstone");
    vf_assert(o.value() == v and *o == v, "holds the value");
}

VF_HARNESS(construct) {
    S const x = any_S();
    bool const has = not(x == tomb);
    holds(O{}, tomb, false);
    holds(O{std::nullopt}, tomb, false);
    holds(O{x}, x, has);
    S y = x;
    holds(O{std::move(y)}, x, has);
    holds(O{std::in_place, x.v, x.w}, x, has);
    holds(O{x.v}, S{x.v, 0}, true);
    O const o{x};
    O p{o};
    holds(p, x, has);
    O q{std::move(p)};
    holds(q, x, has);
    O r{};
    r = q;
    holds(r, x, has);
    holds(stdx::optional{x}, x, has);
    vf_assert((std::is_same_v<decltype(stdx::optional{x}), O>), "deduction");
    if (has) {
        vf_reach("value");
    } else {
        vf_reach("tombstone");
    }
}
VF_HARNESS(access) {
    S const x = any_S();
    O o{x};
    O const &c = o;
    vf_assert(&o.value() == &*o and &o.value() == o.operator->() and
                  &c.value() == &*c and c.operator->() == &c.value() and
                  &o.value() == &c.value(),
              "one held value");
    vf_assert(o->v == x.v and c->w == x.w, "through the arrow");
    auto &&m = std::move(o).value();
    auto &&n = *std::move(o);
    auto &&k = std::move(c).value();
    auto &&l = *std::move(c);
    vf_assert(&m == &c.value() and &n == &c.value() and &k == &c.value() and
                  &l == &c.value(),
              "rvalue access");
    vf_assert((std::is_same_v<decltype(o.value()), S &>) and
                  (std::is_same_v<decltype(c.value()), S const &>) and
                  (std::is_same_v<decltype(std::move(o).value()), S &&>) and
                  (std::is_same_v<decltype(*o), S &>) and
                  (std::is_same_v<decltype(*std::move(o)), S &&>),
              "categories");
    u32 const v = vf::any<u32>();
    o->v = v;
    vf_assert(c.value() == (S{v, x.w}), "written through the arrow");
    (*o).w = v;
    vf_assert(c.value() == (S{v, v}), "written through the star");
    S const d = any_S();
    O const e{x};
    O f{x};
    vf_assert(e.value_or(d) == (x == tomb ? d : x), "value_or");
    vf_assert(e.value_or(d.v) == (x == tomb ? S{d.v} : x),
              "value_or converts");
    vf_assert(std::move(f).value_or(d) == (x == tomb ? d : x),
              "value_or on an rvalue");
    if (x == tomb) {
        vf_reach("empty");
    } else {
        vf_reach("full");
    }
}
VF_HARNESS(modify) {
    S const x = any_S();
    S const y = any_S();
    O o{x};
    o = std::nullopt;
    holds(o, tomb, false);
    o = O{x};
    holds(o, x, not(x == tomb));
    o.reset();
    holds(o, tomb, false);
    O p{x};
    S &r = p.emplace(y.v, y.w);
    vf_assert(&r == &p.value(), "emplace refers to the value");
    holds(p, y, not(y == tomb));
    O q{x};
    q.emplace(y);
    holds(q, y, not(y == tomb));
    q.reset();
    holds(q, tomb, false);
    q.reset();
    holds(q, tomb, false);
    vf_reach("modified");
}
VF_HARNESS(assign_scalar) {
    auto const b = vf::any<std::uint8_t>();
    auto const c = vf::any<std::uint8_t>();
    E const x{b};
    stdx::optional<E> o{E{c}};
    auto &r = (o = x);
    vf_assert(&r == &o, "assignment gives the optional");
    holds(o, x, b != 0xee);
    o = std::nullopt;
    holds(o, E{0xee}, false);
    vf_reach("scalar");
}
VF_HARNESS(compare) {
    S const x = any_S();
    S const y = any_S();
    O const a{x};
    O const b{y};
    bool const ea = x == tomb;
    bool const eb = y == tomb;
    bool const eq = x == y;
    bool const lt = ea or eb ? ea and not eb : x < y;
    bool const gt = ea or eb ? eb and not ea : y < x;
    vf_assert((a == b) == eq and (a != b) == not eq, "equality");
    vf_assert((a < b) == lt, "less");
    vf_assert((a > b) == gt, "greater");
    vf_assert((a <= b) == not gt, "less or equal");
    vf_assert((a >= b) == not lt, "greater or equal");
    if (ea and not eb) {
        vf_reach("empty before value");
    }
    if (not ea and not eb and lt) {
        vf_reach("values decide");
    }
}

static int calls = 0;
static S seen{0, 0};
static S result{0, 0};

struct call {
    auto operator()(S const &s) const -> S {
        ++calls;
        seen = s;
        result = any_S();
        return result;
    }
};
template <typename Opt> static void transformed(Opt &&o, S const &x) {
    calls = 0;
    auto const r = std::forward<Opt>(o).transform(call{});
    vf_assert((std::is_same_v<decltype(r), O const>), "transform type");
    if (x == tomb) {
        vf_assert(calls == 0 and not r.has_value(),
                  "transform of nothing is nothing");
    } else {
        vf_assert(calls == 1 and seen == x, "transform calls once, with it");
        vf_assert(r.value() == result, "transform gives the result");
    }
}
VF_HARNESS(transform_one) {
    S const x = any_S();
    O o{x};
    O const c{x};
    transformed(o, x);
    transformed(c, x);
    transformed(std::move(o), x);
    transformed(std::move(c), x);
    if (x == tomb) {
        vf_reach("empty");
    } else {
        vf_reach("full");
    }
}
struct chain {
    auto operator()(S const &s) const -> O {
        ++calls;
        seen = s;
        result = any_S();
        return O{result};
    }
};
template <typename Opt> static void chained(Opt &&o, S const &x, bool pipe) {
    calls = 0;
    auto const r = pipe ? std::forward<Opt>(o) | chain{}
                        : std::forward<Opt>(o).and_then(chain{});
    vf_assert((std::is_same_v<decltype(r), O const>), "and_then type");
    if (x == tomb) {
        vf_assert(calls == 0 and not r.has_value(),
                  "and_then of nothing is nothing");
    } else {
        vf_assert(calls == 1 and seen == x, "and_then calls once, with it");
        vf_assert(r.value() == result, "and_then gives the result");
    }
}
VF_HARNESS(and_then) {
    S const x = any_S();
    O o{x};
    O const c{x};
    bool const pipe = vf::any<bool>();
    chained(o, x, pipe);
    chained(c, x, pipe);
    chained(std::move(o), x, pipe);
    chained(std::move(c), x, pipe);
    if (x == tomb) {
        vf_reach("empty");
    } else {
        vf_reach("full");
    }
}
template <typename Opt> static void alternative(Opt &&o, S const &x) {
    calls = 0;
    auto const r = std::forward<Opt>(o).or_else([] {
        ++calls;
        result = any_S();
        return O{result};
    });
    if (x == tomb) {
        vf_assert(calls == 1 and r.value() == result,
                  "or_else of nothing is the alternative");
    } else {
        vf_assert(calls == 0 and r.value() == x,
                  "or_else of a value is the value");
    }
}
VF_HARNESS(or_else) {
    S const x = any_S();
    O o{x};
    O const c{x};
    alternative(o, x);
    alternative(c, x);
    alternative(std::move(o), x);
    if (x == tomb) {
        vf_reach("empty");
    } else {
        vf_reach("full");
    }
}
VF_HARNESS(transform_many) {
    S const x = any_S();
    S const y = any_S();
    O const a{x};
    O b{y};
    int n = 0;
    S r{0, 0};
    auto const f = [&](S const &p, S const &q) {
        ++n;
        vf_assert(p == x and q == y, "called with the held values in order");
        r = any_S();
        return r;
    };
    bool const both = not(x == tomb) and not(y == tomb);
    auto const t = stdx::transform(f, a, b);
    vf_assert((std::is_same_v<decltype(t), O const>), "transform type");
    vf_assert(n == (both ? 1 : 0), "called once, only when all are present");
    vf_assert(both ? t.value() == r : not t.has_value(),
              "the result when all are present");
    auto const u = stdx::transform(f, O{x}, std::move(b));
    vf_assert(n == (both ? 2 : 0) and
                  (both ? u.value() == r : not u.has_value()),
              "the same for rvalues");
    if (both) {
        vf_reach("both");
    }
    if (not(x == tomb) and y == tomb) {
        vf_reach("first only");
    }
    if (x == tomb and not(y == tomb)) {
        vf_reach("second only");
    }
}
VF_HARNESS(transform_three) {
    bool const ha = vf::any<bool>();
    bool const hb = vf::any<bool>();
    bool const hc = vf::any<bool>();
    u32 const x = vf::any<u32>();
    u32 const y = vf::any<u32>();
    u32 const z = vf::any<u32>();
    std::optional<u32> a{};
    std::optional<u32> b{};
    std::optional<u32> c{};
    if (ha) {
        a = x;
    }
    if (hb) {
        b = y;
    }
    if (hc) {
        c = z;
    }
    int n = 0;
    auto const t = stdx::transform(
        [&](u32 p, u32 q, u32 r) {
            ++n;
            vf_assert(p == x and q == y and r == z,
                      "called with the held values in order");
            return p ^ r;
        },
        a, b, c);
    bool const all = ha and hb and hc;
    vf_assert(n == (all ? 1 : 0) and t.has_value() == all and
                  (not all or *t == (x ^ z)),
              "called once, only when all are present");
    if (all) {
        vf_reach("all");
    } else {
        vf_reach("not all");
    }
}

VF_HARNESS(pointers) {
    static u32 a[4];
    std::size_t const i = vf::below(4);
    bool const null = vf::any<bool>();
    u32 *const p = null ? nullptr : a + i;
    stdx::optional<u32 *> o{};
    vf_assert(not o.has_value(), "starts empty");
    o = p;
    vf_assert(o.has_value() == not null and *o == p, "null is nothing");
    o.reset();
    vf_assert(not o.has_value() and *o == nullptr, "reset to null");
    int n = 0;
    auto const q = stdx::optional<u32 *>{p}.transform([&](u32 *x) {
        ++n;
        return x;
    });
    vf_assert(n == (null ? 0 : 1) and *q == p, "transform a pointer");
    vf_reach("pointers");
}
VF_HARNESS(values) {
    using V = stdx::optional<int, stdx::tombstone_value<-1>>;
    int const x = vf::any<int>();
    int const y = vf::any<int>();
    V o{x};
    vf_assert(o.has_value() == (x != -1) and *o == x, "tombstone value");
    vf_assert(not V{}.has_value() and not V{std::nullopt}.has_value() and
                  *V{} == -1,
              "starts with the tombstone");
    vf_assert(o.value_or(y) == (x == -1 ? y : x), "value_or");
    V const p{y};
    vf_assert((o == p) == (x == y), "equality");
    vf_assert((o < p) == (x == -1 or y == -1 ? x == -1 and y != -1 : x < y),
              "an empty one is before any value");
    vf_assert((o > p) == (x == -1 or y == -1 ? y == -1 and x != -1 : y < x),
              "any value is after an empty one");
    o = y;
    vf_assert(*o == y and o.has_value() == (y != -1), "assign");
    o.reset();
    vf_assert(not o and *o == -1, "reset");
    using W = stdx::optional<int, stdx::tombstone_value<CX_VALUE(42)>>;
    W const w{x};
    vf_assert(w.has_value() == (x != 42) and not W{}.has_value() and
                  *W{} == 42,
              "tombstone constant");
    vf_reach("values");
}
VF_HARNESS(floats) {
    float const x = __builtin_bit_cast(float, vf::any<u32>());
    float const inf = std::numeric_limits<float>::infinity();
    stdx::optional<float> o{x};
    vf_assert(o.has_value() == not(x == inf), "infinity is nothing");
    vf_assert(__builtin_bit_cast(u32, *o) == __builtin_bit_cast(u32, x),
              "the value is kept");
    o.reset();
    vf_assert(not o.has_value() and *o == inf, "reset to infinity");
    vf_assert(not stdx::optional<float>{}.has_value(), "starts empty");
    vf_reach("floats");
}
VF_HARNESS(tuples) {
    static u32 cell;
    bool const n1 = vf::any<bool>();
    bool const n2 = vf::any<bool>();
    u32 *const p = n1 ? nullptr : &cell;
    u32 const *const q = n2 ? nullptr : &cell;
    using P = std::tuple<u32 *, u32 const *>;
    using T = stdx::optional<P>;
    vf_assert(not T{}.has_value(), "starts empty");
    T o{P{p, q}};
    vf_assert(o.has_value() == not(n1 and n2),
              "a tuple is nothing when every element is");
    int n = 0;
    auto const r = o.transform([&](u32 *a, u32 const *b) {
        ++n;
        vf_assert(a == p and b == q, "called with the elements in order");
        return b;
    });
    vf_assert(n == (n1 and n2 ? 0 : 1), "called once when present");
    vf_assert((n1 and n2) or *r == q, "transform unpacks a tuple");
    auto const s = o.and_then([&](u32 *a, u32 const *b) {
        ++n;
        vf_assert(a == p and b == q, "and_then: the elements in order");
        return stdx::optional<u32 *>{a};
    });
    vf_assert(n == (n1 and n2 ? 0 : 2), "and_then calls once when present");
    vf_assert((n1 and n2) or *s == p, "and_then unpacks a tuple");
    o.reset();
    vf_assert(not o.has_value(), "reset");
    vf_reach("tuples");
}
