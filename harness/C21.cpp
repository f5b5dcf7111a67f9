// tuple traversals: the function is called on every element, in order.
#include "tuples.hpp"


template <typename T> static u32 num(T const &t) {
    if constexpr (std::is_integral_v<T>) {
        return static_cast<u32>(t);
    } else {
        return t.v;
    }
}
// notes its arguments
struct note {
    template <typename... Ts> u32 operator()(Ts const &...ts) const {
        (tape::put(num(ts)), ...);
        u32 r = sizeof...(Ts);
        ((r = mix(r, num(ts))), ...);
        return r;
    }
};
template <typename... Vs> static u32 noted(Vs... vs) {
    u32 r = sizeof...(Vs);
    ((r = mix(r, static_cast<u32>(vs))), ...);
    return r;
}
struct three {
    u32 a = some();
    u32 b = some();
    u32 c = some();
    stdx::tuple<A, u32, A> t{A{a}, b, A{c}};
};

VF_HARNESS(apply_member) {
    three x;
    auto const &k = x.t;
    vf_assert(x.t.apply(note{}) == noted(x.a, x.b, x.c) and
                  tape::is(x.a, x.b, x.c),
              "apply passes the elements in order");
    tape::clear();
    vf_assert(k.apply(note{}) == noted(x.a, x.b, x.c) and
                  tape::is(x.a, x.b, x.c),
              "apply on a constant tuple");
    auto *const where = &get<2>(x.t);
    vf_assert(x.t.apply([&](A &, u32 &p, A &q) {
        p = x.a;
        return &q;
    }) == where and get<1>(x.t) == x.a,
              "apply passes the elements themselves");
    A const out = std::move(x.t).apply([](A &&p, u32 &&, A &&) { return std::move(p); });
    vf_assert(out.v == x.a and get<0>(x.t).v == LOST and get<2>(x.t).v == x.c,
              "apply on a temporary passes it on");
    tape::clear();
    vf_assert(stdx::tuple<>{}.apply(note{}) == noted() and tape::is(),
              "apply on the empty tuple");
    vf_assert((std::is_same_v<decltype(x.t.apply([](auto &p, auto &...) -> auto & {
                  return p;
              })), A &>),
              "apply keeps references");
    vf_reach("apply");
}
VF_HARNESS(apply_free) {
    three x;
    auto const &k = x.t;
    vf_assert(stdx::apply(note{}, x.t) == noted(x.a, x.b, x.c) and
                  tape::is(x.a, x.b, x.c),
              "apply of one tuple");
    tape::clear();
    u32 const d = some();
    u32 const e = some();
    std::array<u32, 2> const arr{d, e};
    std::tuple<u32, A> const st{e, A{d}};
    vf_assert(stdx::apply(note{}, k, stdx::tuple<>{}, arr) ==
                      noted(x.a, x.b, x.c, d, e) and
                  tape::is(x.a, x.b, x.c, d, e),
              "apply of several tuples passes all in order");
    tape::clear();
    vf_assert(stdx::apply(note{}, st, x.t) == noted(e, d, x.a, x.b, x.c) and
                  tape::is(e, d, x.a, x.b, x.c),
              "apply of a standard tuple");
    tape::clear();
    vf_assert(stdx::apply(note{}) == noted() and tape::is(), "apply of none");
    tape::clear();
    A const out = stdx::apply([](A &&p, u32 &&, A &&, u32) { return std::move(p); },
                              std::move(x.t), stdx::tuple<u32>{d});
    vf_assert(out.v == x.a and get<0>(x.t).v == LOST and get<2>(x.t).v == x.c,
              "apply of temporaries passes them on");
    vf_reach("apply");
}
VF_HARNESS(transform_one) {
    three x;
    auto const r = stdx::transform(note{}, x.t);
    vf_assert((is_tuple_of<decltype(r), u32, u32, u32>) and
                  get<0>(r) == noted(x.a) and get<1>(r) == noted(x.b) and
                  get<2>(r) == noted(x.c) and tape::is(x.a, x.b, x.c),
              "each result in the place of its element, in order");
    auto const s = stdx::transform([]<typename T>(T &&v) { return std::forward<T>(v); },
                                   std::move(x.t));
    vf_assert((is_tuple_of<decltype(s), A, u32, A>) and get<0>(s).v == x.a and
                  get<1>(s) == x.b and get<2>(s).v == x.c and
                  get<0>(x.t).v == LOST and get<2>(x.t).v == LOST,
              "elements of a temporary are passed on once");
    tape::clear();
    auto const e = stdx::transform(note{}, stdx::tuple<>{});
    vf_assert(e.empty() and tape::is(), "nothing to transform");
    std::array<u32, 2> const arr{x.a, x.b};
    auto const q = stdx::transform(note{}, std::tuple<u32, A>{x.a, A{x.b}});
    vf_assert((std::is_same_v<std::remove_cvref_t<decltype(q)>,
                              std::tuple<u32, u32>>) and
                  std::get<0>(q) == noted(x.a) and std::get<1>(q) == noted(x.b) and
                  tape::is(x.a, x.b),
              "transform of a standard tuple");
    vf_reach("transform");
}
VF_HARNESS(transform_zip) {
    three x;
    u32 const d = some();
    u32 const e = some();
    stdx::tuple<u32, A> const y{d, A{e}};
    stdx::tuple<A, u32, u32, A> z{A{e}, x.a, d, A{x.b}};
    auto const r = stdx::transform(note{}, x.t, y);
    vf_assert(r.size() == 2 and get<0>(r) == noted(x.a, d) and
                  get<1>(r) == noted(x.b, e) and tape::is(x.a, d, x.b, e),
              "zipped up to the shorter one, in order");
    tape::clear();
    auto const s = stdx::transform(note{}, y, z, x.t);
    vf_assert(s.size() == 2 and get<0>(s) == noted(d, e, x.a) and
                  get<1>(s) == noted(e, x.a, x.b) and
                  tape::is(d, e, x.a, e, x.a, x.b),
              "zipped three at a time");
    tape::clear();
    auto const w = stdx::transform(note{}, z, x.t);
    vf_assert(w.size() == 3 and get<0>(w) == noted(e, x.a) and
                  get<1>(w) == noted(x.a, x.b) and get<2>(w) == noted(d, x.c) and
                  tape::is(e, x.a, x.a, x.b, d, x.c),
              "the longer one first");
    tape::clear();
    auto const none = stdx::transform(note{}, z, stdx::tuple<>{});
    vf_assert(none.size() == 0 and tape::is(), "zipped with nothing");
    vf_reach("zip");
}
template <typename K> struct keyed {
    using key_t = K;
    u32 v;
};
template <typename T> using key_for = typename T::key_t;
VF_HARNESS(transform_indexed) {
    three x;
    auto const t = stdx::transform<key_for>(
        []<typename T>(T const &v) { return keyed<T>{num(v)}; },
        stdx::tuple<A, u32>{A{x.a}, x.b});
    vf_assert(get<A>(t).v == x.a and get<u32>(t).v == x.b,
              "results are found by key");
    auto const u = stdx::transform<key_for>(
        []<typename T, typename U>(T const &v, U const &w) {
            return keyed<T>{mix(num(v), num(w))};
        },
        stdx::tuple<A, u32>{A{x.a}, x.b}, stdx::tuple<u32, u32>{x.c, x.a});
    vf_assert(get<A>(u).v == mix(x.a, x.c) and get<u32>(u).v == mix(x.b, x.a),
              "zipped results are found by key");
    vf_reach("indexed");
}
// counts its calls
struct counter {
    u32 calls = 0;
    u32 sum = 0;
    template <typename... Ts> void operator()(Ts const &...ts) {
        ++calls;
        (tape::put(num(ts)), ...);
        ((sum = mix(sum, num(ts))), ...);
    }
};
VF_HARNESS(for_each_one) {
    three x;
    auto const c = stdx::for_each(counter{}, x.t);
    vf_assert(c.calls == 3 and c.sum == mix(mix(mix(0, x.a), x.b), x.c) and
                  tape::is(x.a, x.b, x.c),
              "each element once, in order, and the function comes back");
    counter mine{};
    stdx::for_each(mine, x.t);
    vf_assert(mine.calls == 3, "a function passed by reference sees all calls");
    stdx::for_each([](auto &v) {
        if constexpr (std::is_same_v<decltype(v), A &>) {
            v.v += 1;
        } else {
            v += 2;
        }
    }, x.t);
    vf_assert(get<0>(x.t).v == x.a + 1 and get<1>(x.t) == x.b + 2 and
                  get<2>(x.t).v == x.c + 1,
              "the elements themselves are passed");
    tape::clear();
    vf_assert(stdx::for_each(counter{}, stdx::tuple<>{}).calls == 0 and tape::is(),
              "no element, no call");
    std::array<u32, 3> const arr{x.a, x.b, x.c};
    vf_assert(stdx::unrolled_for_each(counter{}, arr).calls == 3 and
                  tape::is(x.a, x.b, x.c),
              "each element of an array");
    vf_reach("for each");
}
VF_HARNESS(for_each_zip) {
    three x;
    u32 const d = some();
    u32 const e = some();
    stdx::tuple<u32, A> const y{d, A{e}};
    auto const c = stdx::for_each(counter{}, x.t, y);
    vf_assert(c.calls == 2 and tape::is(x.a, d, x.b, e),
              "zipped up to the shorter one, in order");
    tape::clear();
    std::array<u32, 3> const arr{x.a, x.b, x.c};
    auto const q = stdx::unrolled_for_each(counter{}, y, arr, x.t);
    vf_assert(q.calls == 2 and tape::is(d, x.a, x.a, e, x.b, x.b),
              "zipped three at a time");
    vf_reach("zip");
}
struct enumerator {
    u32 calls = 0;
    template <std::size_t I, typename... Ts> void operator()(Ts const &...ts) {
        ++calls;
        tape::put(static_cast<u32>(I));
        (tape::put(num(ts)), ...);
    }
};
VF_HARNESS(enumerate) {
    three x;
    u32 const d = some();
    auto const c = stdx::enumerate(enumerator{}, x.t);
    vf_assert(c.calls == 3 and tape::is(0, x.a, 1, x.b, 2, x.c),
              "each element with its index, in order");
    tape::clear();
    auto const z = stdx::enumerate(enumerator{}, x.t, stdx::tuple<u32, u32>{d, x.a});
    vf_assert(z.calls == 2 and tape::is(0, x.a, d, 1, x.b, x.a),
              "zipped with its index");
    tape::clear();
    std::array<u32, 2> const arr{d, x.c};
    vf_assert(stdx::unrolled_enumerate(enumerator{}, arr).calls == 2 and
                  tape::is(0, d, 1, x.c),
              "each element of an array with its index");
    vf_reach("enumerate");
}
VF_HARNESS(folds) {
    three x;
    u32 const i = some();
    auto const &k = x.t;
    auto const op = [](auto const &p, auto const &q) {
        tape::put(num(p));
        tape::put(num(q));
        return mix(num(p), num(q));
    };
    u32 const l1 = mix(i, x.a);
    u32 const l2 = mix(l1, x.b);
    vf_assert(k.fold_left(i, op) == mix(l2, x.c) and
                  tape::is(i, x.a, l1, x.b, l2, x.c),
              "fold_left associates to the left");
    tape::clear();
    u32 const r1 = mix(x.c, i);
    u32 const r2 = mix(x.b, r1);
    vf_assert(k.fold_right(i, op) == mix(x.a, r2) and
                  tape::is(x.c, i, x.b, r1, x.a, r2),
              "fold_right associates to the right");
    tape::clear();
    u32 const j1 = mix(x.a, x.b);
    vf_assert(k.join(op) == mix(j1, x.c) and tape::is(x.a, x.b, j1, x.c),
              "join associates to the left");
    tape::clear();
    vf_assert(k.join(i, op) == mix(j1, x.c) and tape::is(x.a, x.b, j1, x.c),
              "join ignores the default when there are elements");
    vf_assert(stdx::tuple<>{}.join(i, op) == i, "join of nothing is the default");
    vf_assert(stdx::tuple<u32>{x.b}.join(op) == x.b, "join of one");
    vf_assert(stdx::tuple<>{}.fold_left(i, op) == i and
                  stdx::tuple<>{}.fold_right(i, op) == i,
              "fold of nothing is the initial value");
    stdx::tuple<> const none{};
    vf_assert(none.fold_left(i, op) == i and none.fold_right(i, op) == i and
                  none.join(i, op) == i,
              "fold of a constant empty tuple");
    vf_reach("folds");
}
VF_HARNESS(folds_moving) {
    u32 const a = some();
    u32 const b = some();
    u32 const i = some();
    auto const op = [](auto &&p, auto &&q) {
        tape::put(num(p));
        tape::put(num(q));
        return A{mix(num(p), num(q))};
    };
    stdx::tuple<A, B> t{A{a}, B{b}};
    vf_assert(std::move(t).fold_left(A{i}, op).v == mix(mix(i, a), b) and
                  tape::is(i, a, mix(i, a), b),
              "fold_left of a temporary");
    tape::clear();
    stdx::tuple<A, B> u{A{a}, B{b}};
    vf_assert(std::move(u).fold_right(A{i}, op).v == mix(a, mix(b, i)) and
                  tape::is(b, i, a, mix(b, i)),
              "fold_right of a temporary");
    tape::clear();
    stdx::tuple<A, B, A> v{A{a}, B{b}, A{i}};
    vf_assert(std::move(v).join(op).v == mix(mix(a, b), i) and
                  tape::is(a, b, mix(a, b), i),
              "join of a temporary");
    tape::clear();
    // types may change as the fold goes on
    stdx::tuple<A, u32, B> const w{A{a}, b, B{i}};
    auto const l = w.fold_left(stdx::tuple<>{}, [](auto so_far, auto const &e) {
        return stdx::tuple_cat(so_far, stdx::make_tuple(e));
    });
    vf_assert((is_tuple_of<decltype(l), A, u32, B>) and l == w,
              "a left fold may collect the elements");
    auto const r = w.fold_right(stdx::tuple<>{}, [](auto const &e, auto so_far) {
        return stdx::tuple_cat(so_far, stdx::make_tuple(e));
    });
    vf_assert((is_tuple_of<decltype(r), B, u32, A>) and get<0>(r).v == i and
                  get<1>(r) == b and get<2>(r).v == a,
              "a right fold may collect them from the end");
    vf_reach("moving");
}
VF_HARNESS(predicates) {
    bool const p = vf::any<bool>();
    bool const q = vf::any<bool>();
    bool const r = vf::any<bool>();
    u32 calls = 0;
    stdx::tuple<bool, bool, bool> const t{p, q, r};
    std::array<bool, 3> const arr{p, q, r};
    auto const is = [&](bool b) {
        ++calls;
        return b;
    };
    vf_assert(stdx::all_of(is, t) == (p and q and r), "all_of");
    vf_assert(stdx::any_of(is, t) == (p or q or r), "any_of");
    vf_assert(stdx::none_of(is, t) == not(p or q or r), "none_of");
    vf_assert(calls <= 9, "at most once per element");
    vf_assert(stdx::unrolled_all_of(is, arr) == (p and q and r) and
                  stdx::unrolled_any_of(is, arr) == (p or q or r) and
                  stdx::unrolled_none_of(is, arr) == not(p or q or r),
              "the same for arrays");
    bool const u = vf::any<bool>();
    bool const v = vf::any<bool>();
    stdx::tuple<bool, bool> const s{u, v};
    auto const both = [](bool a, bool b) { return a and not b; };
    vf_assert(stdx::all_of(both, t, s) == (p and not u and q and not v) and
                  stdx::any_of(both, t, s) == ((p and not u) or (q and not v)) and
                  stdx::none_of(both, t, s) ==
                      not((p and not u) or (q and not v)),
              "zipped up to the shorter one");
    stdx::tuple<> const none{};
    vf_assert(stdx::all_of(is, none) and not stdx::any_of(is, none) and
                  stdx::none_of(is, none),
              "of no elements");
    vf_reach("predicates");
}
