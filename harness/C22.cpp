// tuple rearrangements: every element goes where it should with its value.
#include "tuples.hpp"


struct values {
    u32 a = some();
    u32 b = some();
    u32 c = some();
    u32 d = some();
    u32 e = some();
};
#define TYPES(EXPR, ...) (is_tuple_of<decltype(EXPR), __VA_ARGS__>)

VF_HARNESS(cat) {
    values x;
    stdx::tuple<A, A> p{A{x.a}, A{x.b}};
    stdx::tuple<> const none{};
    stdx::tuple<u32, A, B> const q{x.c, A{x.d}, B{x.e}};
    auto const r = stdx::tuple_cat(p, none, q);
    vf_assert(TYPES(r, A, A, u32, A, B) and get<0>(r).v == x.a and
                  get<1>(r).v == x.b and get<2>(r) == x.c and
                  get<3>(r).v == x.d and get<4>(r).v == x.e,
              "concatenation in order");
    vf_assert(get<0>(p).v == x.a and get<1>(p).v == x.b and get<0>(q) == x.c,
              "the originals are kept");
    auto const s = stdx::tuple_cat(q, std::move(p));
    vf_assert(TYPES(s, u32, A, B, A, A) and get<0>(s) == x.c and
                  get<1>(s).v == x.d and get<2>(s).v == x.e and
                  get<3>(s).v == x.a and get<4>(s).v == x.b,
              "concatenation with a temporary");
    auto const one = stdx::tuple_cat(q);
    vf_assert(TYPES(one, u32, A, B) and one == q, "of one");
    vf_assert(stdx::tuple_cat().empty() and stdx::tuple_cat(none, none).empty(),
              "of none");
    u32 y = x.a;
    auto const ref = stdx::tuple_cat(stdx::tuple<u32 &>{y}, stdx::tuple<u32>{x.b});
    vf_assert(TYPES(ref, u32 &, u32) and &get<0>(ref) == &y and
                  get<1>(ref) == x.b,
              "references stay references");
    vf_reach("cat");
}
VF_HARNESS(push) {
    values x;
    stdx::tuple<A, u32> t{A{x.a}, x.b};
    auto const f = stdx::tuple_cons(A{x.c}, t);
    vf_assert(TYPES(f, A, A, u32) and get<0>(f).v == x.c and
                  get<1>(f).v == x.a and get<2>(f) == x.b,
              "cons puts it first");
    auto const g = stdx::tuple_push_front(x.d, t);
    vf_assert(TYPES(g, u32, A, u32) and get<0>(g) == x.d and
                  get<1>(g).v == x.a and get<2>(g) == x.b,
              "push_front puts it first");
    auto const h = stdx::tuple_snoc(t, A{x.c});
    vf_assert(TYPES(h, A, u32, A) and get<0>(h).v == x.a and get<1>(h) == x.b and
                  get<2>(h).v == x.c,
              "snoc puts it last");
    auto const i = stdx::tuple_push_back(t, x.d);
    vf_assert(TYPES(i, A, u32, u32) and get<0>(i).v == x.a and get<1>(i) == x.b and
                  get<2>(i) == x.d,
              "push_back puts it last");
    vf_assert(get<0>(t).v == x.a and get<1>(t) == x.b, "the original is kept");
    auto const j = stdx::tuple_push_back(std::move(t), A{x.e});
    vf_assert(get<0>(j).v == x.a and get<1>(j) == x.b and get<2>(j).v == x.e,
              "push_back to a temporary");
    stdx::tuple<A, u32> u{A{x.a}, x.b};
    auto const k = stdx::tuple_push_front(A{x.e}, std::move(u));
    vf_assert(get<0>(k).v == x.e and get<1>(k).v == x.a and get<2>(k) == x.b,
              "push_front to a temporary");
    auto const m = stdx::tuple_cons(x.a, stdx::tuple<>{});
    auto const n = stdx::tuple_snoc(stdx::tuple<>{}, x.a);
    vf_assert(TYPES(m, u32) and TYPES(n, u32) and get<0>(m) == x.a and
                  get<0>(n) == x.a,
              "push to the empty tuple");
    auto const sp = stdx::tuple_cons(x.a, std::tuple<u32, A>{x.b, A{x.c}});
    auto const sq = stdx::tuple_snoc(std::tuple<u32, A>{x.b, A{x.c}}, x.a);
    vf_assert(std::get<0>(sp) == x.a and std::get<1>(sp) == x.b and
                  std::get<2>(sp).v == x.c and std::get<0>(sq) == x.b and
                  std::get<1>(sq).v == x.c and std::get<2>(sq) == x.a,
              "push to a standard tuple");
    vf_reach("push");
}
template <typename T> using boxed = std::bool_constant<not std::is_integral_v<T>>;
template <typename T> using any_type = std::true_type;
template <typename T> using no_type = std::false_type;
VF_HARNESS(filtered) {
    values x;
    stdx::tuple<A, u32, B, A, u32> t{A{x.a}, x.b, B{x.c}, A{x.d}, x.e};
    auto const r = stdx::filter<boxed>(t);
    vf_assert(TYPES(r, A, B, A) and get<0>(r).v == x.a and get<1>(r).v == x.c and
                  get<2>(r).v == x.d,
              "elements of matching type in order");
    auto const n = stdx::filter<std::is_integral>(t);
    vf_assert(TYPES(n, u32, u32) and get<0>(n) == x.b and get<1>(n) == x.e,
              "elements of matching type in order (the rest)");
    auto const all = stdx::filter<any_type>(t);
    vf_assert(all == t and stdx::filter<no_type>(t).empty(), "all and none");
    auto const m = stdx::filter<boxed>(std::move(t));
    vf_assert(get<0>(m).v == x.a and get<1>(m).v == x.c and get<2>(m).v == x.d,
              "filter of a temporary");
    vf_reach("filter");
}
template <typename T> static bool named_in_order(T const &) {
    return [&]<std::size_t... Is>(std::index_sequence<Is...>) {
        return (... and (stdx::type_as_string<stdx::tuple_element_t<Is, T>>() <=
                         stdx::type_as_string<stdx::tuple_element_t<Is + 1, T>>()));
    }(std::make_index_sequence<stdx::tuple_size_v<T> - 1>{});
}
// {p, q} = {a, b} as a multiset
static bool pair_of(u32 p, u32 q, u32 a, u32 b) {
    return (p == a and q == b) or (p == b and q == a);
}
VF_HARNESS(sorted) {
    values x;
    stdx::tuple<C, u32, A, B> t{C{x.a}, x.b, A{x.c}, B{x.d}};
    auto const r = stdx::sort(t);
    vf_assert(r.size() == 4 and get<C>(r).v == x.a and get<u32>(r) == x.b and
                  get<A>(r).v == x.c and get<B>(r).v == x.d,
              "every value stays with its type");
    vf_assert(named_in_order(r), "sorted by the name of the type");
    auto const m = stdx::sort(std::move(t));
    vf_assert(m == r, "sort of a temporary");
    stdx::tuple<B, A, B, A> const u{B{x.a}, A{x.b}, B{x.c}, A{x.d}};
    auto const s = stdx::sort(u);
    vf_assert(TYPES(s, A, A, B, B) and
                  pair_of(get<0>(s).v, get<1>(s).v, x.b, x.d) and
                  pair_of(get<2>(s).v, get<3>(s).v, x.a, x.c),
              "equal types keep all their values");
    vf_assert(stdx::sort(stdx::tuple<>{}).empty() and
                  get<0>(stdx::sort(stdx::tuple<A>{A{x.a}})).v == x.a,
              "sort of none and one");
    vf_reach("sorted");
}
template <int, typename T> struct slot {
    using key = T;
    u32 v;
};
template <typename T> using key_of = typename T::key;
VF_HARNESS(sorted_by) {
    values x;
    stdx::tuple<slot<0, C>, slot<1, A>, slot<2, B>> const t{
        slot<0, C>{x.a}, slot<1, A>{x.b}, slot<2, B>{x.c}};
    auto const r = stdx::sort<key_of>(t);
    vf_assert(TYPES(r, slot<1, A>, slot<2, B>, slot<0, C>) and
                  get<0>(r).v == x.b and get<1>(r).v == x.c and get<2>(r).v == x.a,
              "sorted by a function of the type");
    vf_reach("sorted");
}
VF_HARNESS(chunks) {
    values x;
    stdx::tuple<A, A, B, A, A> t{A{x.a}, A{x.b}, B{x.c}, A{x.d}, A{x.e}};
    auto const r = stdx::chunk(t);
    vf_assert(TYPES(r, stdx::tuple<A, A>, stdx::tuple<B>, stdx::tuple<A, A>) and
                  get<0>(get<0>(r)).v == x.a and get<1>(get<0>(r)).v == x.b and
                  get<0>(get<1>(r)).v == x.c and get<0>(get<2>(r)).v == x.d and
                  get<1>(get<2>(r)).v == x.e,
              "adjacent elements of one type together, in order");
    auto const m = stdx::chunk_by(std::move(t));
    vf_assert(m == r, "chunks of a temporary");
    stdx::tuple<slot<0, A>, slot<1, A>, slot<2, B>> const s{
        slot<0, A>{x.a}, slot<1, A>{x.b}, slot<2, B>{x.c}};
    auto const q = stdx::chunk_by<key_of>(s);
    vf_assert(TYPES(q, stdx::tuple<slot<0, A>, slot<1, A>>,
                    stdx::tuple<slot<2, B>>) and
                  get<0>(get<0>(q)).v == x.a and get<1>(get<0>(q)).v == x.b and
                  get<0>(get<1>(q)).v == x.c,
              "chunks by a function of the type");
    auto const one = stdx::chunk(stdx::tuple<A>{A{x.a}});
    vf_assert(TYPES(one, stdx::tuple<A>) and get<0>(get<0>(one)).v == x.a and
                  stdx::chunk(stdx::tuple<>{}).empty(),
              "chunks of one and none");
    stdx::tuple<A, B, C> const d{A{x.a}, B{x.b}, C{x.c}};
    auto const e = stdx::chunk(d);
    vf_assert(TYPES(e, stdx::tuple<A>, stdx::tuple<B>, stdx::tuple<C>) and
                  get<0>(get<0>(e)).v == x.a and get<0>(get<1>(e)).v == x.b and
                  get<0>(get<2>(e)).v == x.c,
              "chunks of distinct types");
    vf_reach("chunks");
}
VF_HARNESS(gathered) {
    values x;
    stdx::tuple<A, B, A, C, B> t{A{x.a}, B{x.b}, A{x.c}, C{x.d}, B{x.e}};
    auto const r = stdx::gather(t);
    vf_assert(TYPES(r, stdx::tuple<A, A>, stdx::tuple<B, B>, stdx::tuple<C>),
              "one group per type");
    vf_assert(pair_of(get<0>(get<0>(r)).v, get<1>(get<0>(r)).v, x.a, x.c) and
                  pair_of(get<0>(get<1>(r)).v, get<1>(get<1>(r)).v, x.b, x.e) and
                  get<0>(get<2>(r)).v == x.d,
              "each group holds the values of its type");
    auto const m = stdx::gather_by(std::move(t));
    vf_assert(pair_of(get<0>(get<0>(m)).v, get<1>(get<0>(m)).v, x.a, x.c) and
                  pair_of(get<0>(get<1>(m)).v, get<1>(get<1>(m)).v, x.b, x.e) and
                  get<0>(get<2>(m)).v == x.d,
              "gather of a temporary");
    stdx::tuple<slot<0, B>, slot<1, A>, slot<2, B>> const s{
        slot<0, B>{x.a}, slot<1, A>{x.b}, slot<2, B>{x.c}};
    auto const q = stdx::gather_by<key_of>(s);
    vf_assert(q.size() == 2 and get<0>(get<0>(q)).v == x.b and
                  get<slot<0, B>>(get<1>(q)).v == x.a and
                  get<slot<2, B>>(get<1>(q)).v == x.c,
              "gather by a function of the type");
    auto const one = stdx::gather(stdx::tuple<A>{A{x.a}});
    vf_assert(get<0>(get<0>(one)).v == x.a and stdx::gather(stdx::tuple<>{}).empty(),
              "gather of one and none");
    vf_reach("gathered");
}
VF_HARNESS(sets) {
    values x;
    stdx::tuple<B, B, A, B, C> t{B{x.a}, B{x.b}, A{x.c}, B{x.d}, C{x.e}};
    auto const u = stdx::unique(t);
    vf_assert(TYPES(u, B, A, B, C) and get<0>(u).v == x.a and get<1>(u).v == x.c and
                  get<2>(u).v == x.d and get<3>(u).v == x.e,
              "unique keeps the first of each run");
    auto const o = stdx::to_unsorted_set(t);
    vf_assert(TYPES(o, B, A, C) and get<0>(o).v == x.a and get<1>(o).v == x.c and
                  get<2>(o).v == x.e,
              "to_unsorted_set keeps the first of each type in place");
    auto const s = stdx::to_sorted_set(t);
    vf_assert(TYPES(s, A, B, C) and get<0>(s).v == x.c and get<2>(s).v == x.e and
                  (get<1>(s).v == x.a or get<1>(s).v == x.b or get<1>(s).v == x.d),
              "to_sorted_set keeps one of each type");
    auto const mu = stdx::unique(stdx::tuple<A, A, B>{A{x.a}, A{x.b}, B{x.c}});
    vf_assert(TYPES(mu, A, B) and get<0>(mu).v == x.a and get<1>(mu).v == x.c,
              "unique of a temporary");
    auto const mo = stdx::to_unsorted_set(stdx::tuple<A, B, A>{A{x.a}, B{x.b}, A{x.c}});
    vf_assert(TYPES(mo, A, B) and get<0>(mo).v == x.a and get<1>(mo).v == x.b,
              "to_unsorted_set of a temporary");
    auto const ms = stdx::to_sorted_set(stdx::tuple<B, A, B>{B{x.a}, A{x.b}, B{x.c}});
    vf_assert(TYPES(ms, A, B) and get<0>(ms).v == x.b and
                  (get<1>(ms).v == x.a or get<1>(ms).v == x.c),
              "to_sorted_set of a temporary");
    vf_assert(stdx::unique(stdx::tuple<>{}).empty() and
                  stdx::to_unsorted_set(stdx::tuple<>{}).empty() and
                  get<0>(stdx::unique(stdx::tuple<A>{A{x.a}})).v == x.a,
              "of none and one");
    vf_reach("sets");
}
template <typename T> static bool row(T const &t, u32 p, u32 q) {
    return get<0>(t).v == p and get<1>(t).v == q;
}
VF_HARNESS(products) {
    values x;
    stdx::tuple<A, C> p{A{x.a}, C{x.b}};
    stdx::tuple<B, A, B> q{B{x.c}, A{x.d}, B{x.e}};
    auto const r = stdx::cartesian_product_copy(p, q);
    vf_assert(TYPES(r, stdx::tuple<A, B>, stdx::tuple<A, A>, stdx::tuple<A, B>,
                    stdx::tuple<C, B>, stdx::tuple<C, A>, stdx::tuple<C, B>),
              "a row for every pair, in order");
    vf_assert(row(get<0>(r), x.a, x.c) and row(get<1>(r), x.a, x.d) and
                  row(get<2>(r), x.a, x.e) and row(get<3>(r), x.b, x.c) and
                  row(get<4>(r), x.b, x.d) and row(get<5>(r), x.b, x.e),
              "rows hold the values of their pair");
    auto const s = stdx::cartesian_product(p, q);
    vf_assert(&get<0>(get<0>(s)) == &get<0>(p) and
                  &get<1>(get<0>(s)) == &get<0>(q) and
                  &get<0>(get<1>(s)) == &get<0>(p) and
                  &get<1>(get<1>(s)) == &get<1>(q) and
                  &get<1>(get<2>(s)) == &get<2>(q) and
                  &get<0>(get<3>(s)) == &get<1>(p) and
                  &get<1>(get<3>(s)) == &get<0>(q) and
                  &get<1>(get<5>(s)) == &get<2>(q) and s.size() == 6,
              "the product of references refers to the originals");
    auto const m = stdx::cartesian_product_copy(std::move(p), std::move(q));
    vf_assert(row(get<0>(m), x.a, x.c) and row(get<1>(m), x.a, x.d) and
                  row(get<2>(m), x.a, x.e) and row(get<3>(m), x.b, x.c) and
                  row(get<4>(m), x.b, x.d) and row(get<5>(m), x.b, x.e),
              "the product of temporaries holds every value");
    auto const n = stdx::cartesian_product_copy();
    vf_assert(n.size() == 1 and get<0>(n).empty() and
                  stdx::cartesian_product().size() == 1,
              "the product of none");
    auto const o = stdx::cartesian_product_copy(stdx::tuple<A, A>{A{x.a}, A{x.b}});
    vf_assert(o.size() == 2 and get<0>(get<0>(o)).v == x.a and
                  get<0>(get<1>(o)).v == x.b,
              "the product of one");
    vf_assert(stdx::cartesian_product_copy(stdx::tuple<A>{A{x.a}}, stdx::tuple<>{}).empty(),
              "the product with nothing");
    auto const t = stdx::cartesian_product_copy(
        stdx::tuple<A, B>{A{x.a}, B{x.b}}, stdx::tuple<A>{A{x.c}},
        stdx::tuple<B, A>{B{x.d}, A{x.e}});
    vf_assert(t.size() == 4 and row(get<0>(t), x.a, x.c) and
                  get<2>(get<0>(t)).v == x.d and get<2>(get<1>(t)).v == x.e and
                  row(get<3>(t), x.b, x.c) and get<2>(get<3>(t)).v == x.e and
                  row(get<2>(t), x.b, x.c) and row(get<1>(t), x.a, x.c),
              "the product of three");
    vf_reach("products");
}
