// tuple: elements are stored, returned and compared faithfully.
#include "tuples.hpp"

using namespace stdx::literals;

template <typename E, typename T> static constexpr bool refers = std::is_same_v<T, E>;

VF_HARNESS(get_by_index) {
    u32 const a = some();
    u32 const b = some();
    u32 const c = some();
    stdx::tuple<A, u32, A> t{A{a}, b, A{c}};
    auto const &k = t;
    vf_assert(t[stdx::index<0>].v == a and t[stdx::index<1>] == b and t[stdx::index<2>].v == c,
              "each element has its value");
    vf_assert(t[0_idx].v == a and t[1_idx] == b and t[2_idx].v == c,
              "indexing by literal");
    vf_assert(&stdx::get<0>(t) == &t[stdx::index<0>] and
                  &get<1>(t) == &t[stdx::index<1>] and &get<2>(t) == &t[stdx::index<2>] and
                  &get<0>(k) == &t[stdx::index<0>] and &k[stdx::index<1>] == &t[stdx::index<1>] and
                  &get<2>(k) == &t[stdx::index<2>],
              "get and indexing give the same object");
    vf_assert((refers<decltype(get<0>(t)), A &> and
               refers<decltype(get<0>(k)), A const &> and
               refers<decltype(get<0>(std::move(t))), A &&> and
               refers<decltype(t[stdx::index<1>]), u32 &> and
               refers<decltype(k[stdx::index<1>]), u32 const &> and
               refers<decltype(std::move(t)[stdx::index<1>]), u32 &&>),
              "constness and value category are those of the tuple");
    vf_assert(&t[stdx::index<0>] != &t[stdx::index<2>], "elements are distinct objects");
    u32 const d = some();
    get<1>(t) = d;
    vf_assert(t[stdx::index<0>].v == a and t[stdx::index<1>] == d and t[stdx::index<2>].v == c,
              "writing changes only that element");
    get<2>(t) = A{b};
    vf_assert(get<0>(t).v == a and get<1>(t) == d and get<2>(t).v == b,
              "writing changes only that element (last)");
    A const m{get<0>(std::move(t))};
    vf_assert(m.v == a and t[stdx::index<0>].v == LOST and t[stdx::index<2>].v == b,
              "moving out takes only that element");
    vf_assert(t.size() == 3 and not t.empty() and
                  stdx::tuple_size_v<decltype(t)> == 3 and
                  std::tuple_size_v<decltype(t)> == 3,
              "size");
    vf_reach("index");
}
VF_HARNESS(get_by_type) {
    u32 const a = some();
    u32 const b = some();
    u32 const c = some();
    stdx::tuple<A, u32, nothing, C> t{A{a}, b, nothing{}, C{c}};
    auto const &k = t;
    vf_assert(&get<A>(t) == &t[stdx::index<0>] and &get<u32>(t) == &t[stdx::index<1>] and
                  &get<C>(t) == &t[stdx::index<3>] and &get<A>(k) == &t[stdx::index<0>] and
                  &get<u32>(k) == &t[stdx::index<1>] and &get<C>(k) == &t[stdx::index<3>],
              "get by type gives the element of that type");
    vf_assert((refers<decltype(get<A>(t)), A &> and
               refers<decltype(get<A>(k)), A const &> and
               refers<decltype(get<A>(std::move(t))), A &&>),
              "constness and value category are those of the tuple");
    vf_assert(get<A>(t).v == a and get<u32>(t) == b and get<C>(t).v == c,
              "get by type gives the value");
    C const m = get<C>(std::move(t));
    vf_assert(m.v == c and get<C>(t).v == LOST and get<A>(t).v == a,
              "moving out by type takes only that element");
    vf_assert((stdx::contains_type<decltype(t), A> and
               stdx::contains_type<decltype(t), nothing> and
               not stdx::contains_type<decltype(t), B>),
              "contains_type tells the types");
    vf_reach("type");
}
VF_HARNESS(references) {
    u32 x = some();
    u32 const x0 = x;
    A y{some()};
    u32 const y0 = y.v;
    stdx::tuple<u32 &, A &, u32> t{x, y, x};
    auto const &k = t;
    vf_assert(&get<0>(t) == &x and &get<1>(t) == &y and &get<2>(t) != &x and
                  &get<0>(k) == &x and &get<1>(std::move(t)) == &y,
              "reference elements refer to the originals");
    u32 const z = some();
    get<0>(t) = z;
    vf_assert(x == z and get<2>(t) == x0 and y.v == y0,
              "writing through a reference element");
    auto f = stdx::forward_as_tuple(x, std::move(y), k);
    vf_assert((is_tuple_of<decltype(f), u32 &, A &&, decltype(k)>),
              "forward_as_tuple keeps value categories");
    vf_assert(&get<0>(f) == &x and &get<1>(f) == &y and &get<2>(f) == &k and
                  y.v == y0,
              "forward_as_tuple refers to its arguments");
    A const out{get<1>(std::move(f))};
    vf_assert(out.v == y0 and y.v == LOST, "moving through a reference");
    auto m = stdx::make_tuple(x, k, A{z});
    vf_assert((is_tuple_of<decltype(m), u32, stdx::tuple<u32 &, A &, u32>, A>),
              "make_tuple decays its arguments");
    vf_assert(get<0>(m) == z and &get<0>(m) != &x and get<2>(m).v == z,
              "make_tuple holds the values");
    vf_reach("references");
}
VF_HARNESS(copies) {
    u32 const a = some();
    u32 const b = some();
    u32 const c = some();
    using T = stdx::tuple<A, A, u32, nothing>;
    T t{A{a}, A{b}, c, nothing{}};
    T u{t};
    vf_assert(get<0>(u).v == a and get<1>(u).v == b and get<2>(u) == c and
                  get<0>(t).v == a and get<1>(t).v == b and get<2>(t) == c,
              "a copy holds the same values");
    T m{std::move(t)};
    vf_assert(get<0>(m).v == a and get<1>(m).v == b and get<2>(m) == c and
                  get<0>(t).v == LOST and get<1>(t).v == LOST,
              "a move takes the values");
    t = u;
    vf_assert(get<0>(t).v == a and get<1>(t).v == b and get<2>(t) == c,
              "assignment copies the values");
    get<1>(u) = A{c};
    m = std::move(u);
    vf_assert(get<0>(m).v == a and get<1>(m).v == c and get<2>(m) == c and
                  get<0>(u).v == LOST and get<1>(u).v == LOST,
              "move assignment takes the values");
    auto const n = stdx::make_tuple(A{a}, b, C{c});
    vf_assert(get<0>(n).v == a and get<1>(n) == b and get<2>(n).v == c,
              "make_tuple keeps order");
    auto const tl = n.tail();
    vf_assert(get<0>(tl) == b and get<1>(tl).v == c and tl.size() == 2,
              "tail drops the first");
    auto const tm = stdx::make_tuple(A{a}, B{b}, C{c}).tail();
    vf_assert(get<0>(tm).v == b and get<1>(tm).v == c and tm.size() == 2,
              "tail of a temporary drops the first");
    auto const e = stdx::tuple<>{}.tail();
    vf_assert(e.empty(), "the tail of the empty tuple is empty");
    vf_reach("copies");
}
VF_HARNESS(destructuring) {
    u32 const a = some();
    u32 const b = some();
    stdx::tuple<A, u32, A> t{A{a}, b, A{b}};
    auto &[x, y, z] = t;
    vf_assert(&x == &get<0>(t) and &y == &get<1>(t) and &z == &get<2>(t),
              "structured bindings name the elements");
    auto const [p, q, r] = t;
    vf_assert(p.v == a and q == b and r.v == b, "structured bindings copy");
    auto i = stdx::make_indexed_tuple<>(A{a}, b);
    auto &[s, w] = i;
    vf_assert(&s == &get<0>(i) and &w == &get<1>(i) and s.v == a and w == b,
              "structured bindings of an indexed tuple");
    vf_reach("destructuring");
}

// ---- comparison
template <typename T, typename U> static void compare(T const &t, U const &u, int sign, bool eq) {
    vf_assert((t == u) == eq and (u == t) == eq and (t != u) == not eq,
              "equal iff all elements are");
    vf_assert(((t <=> u) < 0) == (sign < 0) and ((t <=> u) > 0) == (sign > 0) and
                  ((t <=> u) == 0) == (sign == 0),
              "three-way comparison is lexicographic");
    vf_assert((t < u) == (sign < 0) and (t <= u) == (sign <= 0) and
                  (t > u) == (sign > 0) and (t >= u) == (sign >= 0) and
                  (u < t) == (sign > 0) and (u >= t) == (sign <= 0),
              "comparison is lexicographic");
}
template <typename V> static int order(V a, V b) {
    return a < b ? -1 : b < a ? 1 : 0;
}
VF_HARNESS(compare_same) {
    u32 const a = vf::any<u32>();
    int const b = vf::any<int>();
    u32 const c = vf::any<u32>();
    u32 const d = vf::any<u32>();
    int const e = vf::any<int>();
    u32 const f = vf::any<u32>();
    int const first = order(a, d);
    int const second = first != 0 ? first : order(b, e);
    int const third = second != 0 ? second : order(c, f);
    compare(stdx::tuple<u32>{a}, stdx::tuple<u32>{d}, first, first == 0);
    compare(stdx::tuple<A, int>{A{a}, b}, stdx::tuple<A, int>{A{d}, e}, second,
            second == 0);
    compare(stdx::tuple<A, int, u32>{A{a}, b, c},
            stdx::tuple<A, int, u32>{A{d}, e, f}, third, third == 0);
    compare(stdx::tuple<nothing, A, nothing>{nothing{}, A{a}, nothing{}},
            stdx::tuple<nothing, A, nothing>{nothing{}, A{d}, nothing{}}, first, first == 0);
    compare(stdx::tuple<>{}, stdx::tuple<>{}, 0, true);
    if (third == 0) {
        vf_reach("equal");
    } else if (first == 0 and second < 0) {
        vf_reach("decided by the second");
    } else if (second == 0) {
        vf_reach("decided by the third");
    }
}
VF_HARNESS(compare_mixed) {
    u32 const a = vf::any<std::uint16_t>();
    int const b = vf::any<std::int16_t>();
    std::uint8_t const d = vf::any<std::uint8_t>();
    std::int64_t const e = vf::any<std::int64_t>();
    int const first = order<std::int64_t>(a, d);
    int const second = first != 0 ? first : order<std::int64_t>(b, e);
    compare(stdx::tuple<int, int>{static_cast<int>(a), b},
            stdx::tuple<std::int16_t, std::int64_t>{d, e}, second, second == 0);
    compare(stdx::make_indexed_tuple<>(static_cast<int>(a), b),
            stdx::tuple<std::int16_t, std::int64_t>{d, e}, second, second == 0);
    int x = b;
    compare(stdx::tuple<int, int const &>{static_cast<int>(a), x},
            stdx::tuple<std::int16_t, std::int64_t>{d, e}, second, second == 0);
    vf_reach("mixed");
}
VF_HARNESS(compare_partial) {
    // an unordered first element decides
    struct part {
        u32 v;
        bool operator==(part o) const { return v == o.v; }
        std::partial_ordering operator<=>(part o) const {
            if (v == 0 or o.v == 0) {
                return v == o.v ? std::partial_ordering::equivalent
                                : std::partial_ordering::unordered;
            }
            return v <=> o.v;
        }
    };
    u32 const a = vf::any<u32>();
    u32 const b = vf::any<u32>();
    u32 const c = vf::any<u32>();
    u32 const d = vf::any<u32>();
    stdx::tuple<u32, part> const t{a, part{b}};
    stdx::tuple<u32, part> const u{c, part{d}};
    bool const less = a < c or (a == c and b != 0 and d != 0 and b < d);
    bool const more = a > c or (a == c and b != 0 and d != 0 and b > d);
    vf_assert((t < u) == less and (t > u) == more and
                  (t <= u) == (less or (a == c and b == d)),
              "partial order is lexicographic");
    vf_assert((std::is_same_v<decltype(t <=> u), std::partial_ordering>),
              "the comparison category is the common one");
    vf_reach("partial");
}
VF_HARNESS(one_of) {
    u32 const a = vf::any<u32>();
    u32 const b = vf::any<u32>();
    u32 const c = vf::any<u32>();
    u32 const x = vf::any<u32>();
    bool const in = x == a or x == b or x == c;
    auto const o = stdx::one_of{a, b, c};
    vf_assert((o == x) == in and (x == o) == in and (o != x) == not in and
                  (x != o) == not in,
              "one_of is equal to each of its values and no other");
    vf_assert(not(stdx::one_of<>{} == x), "one of none");
    vf_reach("one of");
}

// ---- indexed tuples
template <typename K, typename V> struct entry {
    using key_t = K;
    V value;
};
template <typename T> using key_for = typename T::key_t;
struct X;
struct Y;
struct Z;
VF_HARNESS(indexed) {
    u32 const a = some();
    u32 const b = some();
    u32 const c = some();
    auto t = stdx::make_indexed_tuple<key_for>(
        entry<X, A>{A{a}}, entry<Y, u32>{b}, entry<Z, A>{A{c}});
    auto const &k = t;
    vf_assert(&get<X>(t) == &get<0>(t) and &get<Y>(t) == &get<1>(t) and
                  &get<Z>(t) == &get<2>(t) and &get<Z>(k) == &get<2>(t),
              "lookup by key gives the entry of that key");
    vf_assert(get<X>(t).value.v == a and get<Y>(t).value == b and
                  get<Z>(k).value.v == c,
              "entries hold their values");
    vf_assert((&get<entry<Y, u32>>(t) == &get<1>(t)), "lookup by element type");
    vf_assert((stdx::contains_type<decltype(t), X> and
               stdx::contains_type<decltype(t), entry<Y, u32>> and
               not stdx::contains_type<decltype(t), A>),
              "contains_type tells keys and types");
    auto u = stdx::tuple<entry<X, A>, entry<Y, u32>>{entry<X, A>{A{a}},
                                                     entry<Y, u32>{b}};
    auto const v = stdx::apply_indices<key_for>(u);
    vf_assert(get<X>(v).value.v == a and get<Y>(v).value == b and
                  get<0>(u).value.v == a,
              "apply_indices keeps the values");
    auto const w = stdx::apply_indices<key_for>(std::move(u));
    vf_assert(get<X>(w).value.v == a and get<Y>(w).value == b and
                  get<0>(u).value.v == LOST,
              "apply_indices of a temporary takes the values");
    vf_reach("indexed");
}
