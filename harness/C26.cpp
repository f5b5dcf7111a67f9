// bound calls and function wrappers: arguments in order, called once.
#include "tuples.hpp"

#include <stdx/for_each_n_args.hpp>
#include <stdx/functional.hpp>
#include <stdx/utility.hpp>

namespace {
template <typename T> u32 raw(T const &t) {
    if constexpr (requires { t.v; }) {
        return t.v;
    } else {
        return static_cast<u32>(t);
    }
}
u32 result = 0;
// records its arguments in order, in its own name
struct recorder {
    u32 id{};
    template <typename... Ts> u32 operator()(Ts const &...ts) const {
        tape::put(id);
        (tape::put(raw(ts)), ...);
        return result;
    }
};
// an argument of any type, by value, so that moved ones are taken away
struct slot {
    u32 v{};
    template <typename T>
        requires(not std::is_same_v<std::remove_cvref_t<T>, slot>)
    slot(T &&t) {
        std::remove_cvref_t<T> const mine(std::forward<T>(t));
        v = raw(mine);
    }
};
struct taker {
    u32 operator()(slot a, slot b, slot c) const {
        tape::put(a.v);
        tape::put(b.v);
        tape::put(c.v);
        return result;
    }
};
// tells how the function itself was called
struct qualified {
    template <typename... Ts> int operator()(Ts &&...) & { return 1; }
    template <typename... Ts> int operator()(Ts &&...) const & { return 2; }
    template <typename... Ts> int operator()(Ts &&...) && { return 3; }
};
u32 fn3(slot a, slot b, slot c) {
    tape::put(a.v);
    tape::put(b.v);
    tape::put(c.v);
    return result;
}
u32 fn4(slot a, slot b, slot c, slot d) {
    tape::put(a.v);
    tape::put(b.v);
    tape::put(c.v);
    tape::put(d.v);
    return result;
}
struct vals {
    u32 a = some();
    u32 b = some();
    u32 c = some();
    u32 d = some();
    u32 e = some();
    vals() {
        result = some();
        tape::clear();
    }
};
template <typename Fn, typename... Vs> void called(Fn &&f, Vs... vs) {
    tape::clear();
    vf_assert(f() == result, "the result of the function");
    vf_assert(tape::is(vs...), "called once with the arguments in order");
}
} // namespace

VF_HARNESS(front) {
    vals x;
    recorder const r{x.e};
    auto f = stdx::bind_front(r, A{x.a}, x.b);
    called([&] { return f(x.c, B{x.d}); }, x.e, x.a, x.b, x.c, x.d);
    called([&] { return std::as_const(f)(x.c); }, x.e, x.a, x.b, x.c);
    called([&] { return f(); }, x.e, x.a, x.b);
    called([&] { return f(x.d, x.c); }, x.e, x.a, x.b, x.d, x.c);
    called([&] { return std::move(f)(x.d, x.c); }, x.e, x.a, x.b, x.d, x.c);
    auto none = stdx::bind_front(recorder{x.a});
    called([&] { return none(x.b, x.c); }, x.a, x.b, x.c);
    called([&] { return std::as_const(none)(); }, x.a);
    called([&] { return std::move(none)(x.d); }, x.a, x.d);
    auto p = stdx::bind_front(&fn3, x.a);
    called([&] { return p(A{x.b}, x.c); }, x.a, x.b, x.c);
    vf_reach("front");
}
VF_HARNESS(back) {
    vals x;
    recorder const r{x.e};
    auto f = stdx::bind_back(r, A{x.a}, x.b);
    called([&] { return f(x.c, B{x.d}); }, x.e, x.c, x.d, x.a, x.b);
    called([&] { return std::as_const(f)(x.c); }, x.e, x.c, x.a, x.b);
    called([&] { return f(); }, x.e, x.a, x.b);
    called([&] { return f(x.d, x.c); }, x.e, x.d, x.c, x.a, x.b);
    called([&] { return std::move(f)(x.d, x.c); }, x.e, x.d, x.c, x.a, x.b);
    auto none = stdx::bind_back(recorder{x.a});
    called([&] { return none(x.b, x.c); }, x.a, x.b, x.c);
    called([&] { return std::as_const(none)(); }, x.a);
    called([&] { return std::move(none)(x.d); }, x.a, x.d);
    auto p = stdx::bind_back(&fn3, A{x.b}, x.c);
    called([&] { return p(x.a); }, x.a, x.b, x.c);
    vf_reach("back");
}
VF_HARNESS(front_value) {
    vals x;
    auto f = stdx::bind_front<fn4>(A{x.a}, x.b);
    called([&] { return f(B{x.c}, x.d); }, x.a, x.b, x.c, x.d);
    called([&] { return std::as_const(f)(B{x.e}, x.d); }, x.a, x.b, x.e, x.d);
    called([&] { return f(B{x.c}, x.c); }, x.a, x.b, x.c, x.c);
    called([&] { return std::move(f)(B{x.c}, x.e); }, x.a, x.b, x.c, x.e);
    auto none = stdx::bind_front<fn3>();
    called([&] { return none(x.a, A{x.b}, x.c); }, x.a, x.b, x.c);
    called([&] { return std::as_const(none)(x.c, A{x.b}, x.c); }, x.c, x.b,
           x.c);
    called([&] { return std::move(none)(x.a, A{x.b}, x.e); }, x.a, x.b, x.e);
    auto all = stdx::bind_front<recorder{}>(x.a, B{x.b}, x.c, x.d);
    called([&] { return all(); }, 0u, x.a, x.b, x.c, x.d);
    called([&] { return all(x.e); }, 0u, x.a, x.b, x.c, x.d, x.e);
    vf_reach("front_value");
}
VF_HARNESS(back_value) {
    vals x;
    auto f = stdx::bind_back<fn4>(B{x.c}, x.d);
    called([&] { return f(A{x.a}, x.b); }, x.a, x.b, x.c, x.d);
    called([&] { return std::as_const(f)(A{x.e}, x.d); }, x.e, x.d, x.c, x.d);
    called([&] { return f(A{x.c}, x.c); }, x.c, x.c, x.c, x.d);
    called([&] { return std::move(f)(A{x.b}, x.e); }, x.b, x.e, x.c, x.d);
    auto none = stdx::bind_back<fn3>();
    called([&] { return none(x.a, A{x.b}, x.c); }, x.a, x.b, x.c);
    called([&] { return std::as_const(none)(x.c, A{x.b}, x.c); }, x.c, x.b,
           x.c);
    called([&] { return std::move(none)(x.a, A{x.b}, x.e); }, x.a, x.b, x.e);
    auto all = stdx::bind_back<recorder{}>(x.a, B{x.b}, x.c, x.d);
    called([&] { return all(); }, 0u, x.a, x.b, x.c, x.d);
    called([&] { return all(x.e); }, 0u, x.e, x.a, x.b, x.c, x.d);
    vf_reach("back_value");
}
// what is bound is a copy, which outlives changes to the original
VF_HARNESS(copies) {
    vals x;
    A a{x.a};
    u32 b = x.b;
    recorder r{x.c};
    auto f = stdx::bind_front(r, a, b);
    auto g = stdx::bind_back(r, a, b);
    auto fv = stdx::bind_front<recorder{}>(a, b);
    auto gv = stdx::bind_back<recorder{}>(a, b);
    auto rf = stdx::bind_front(r, std::ref(b));
    auto rg = stdx::bind_back<recorder{}>(std::ref(b));
    a.v = x.d;
    b = x.e;
    r.id = x.d;
    called([&] { return f(); }, x.c, x.a, x.b);
    called([&] { return g(); }, x.c, x.a, x.b);
    called([&] { return fv(); }, 0u, x.a, x.b);
    called([&] { return gv(); }, 0u, x.a, x.b);
    called([&] { return rf(); }, x.c, x.e);
    called([&] { return rg(); }, 0u, x.e);
    vf_assert(a.v == x.d and b == x.e, "the originals are not touched");
    auto const h = f;
    auto const k = g;
    called([&] { return h(x.e); }, x.c, x.a, x.b, x.e);
    called([&] { return k(x.e); }, x.c, x.e, x.a, x.b);
    vf_reach("copies");
}
// calls on an lvalue keep what is bound; the last call may take it away
VF_HARNESS(kept) {
    vals x;
    auto f = stdx::bind_front(taker{}, A{x.a}, B{x.b});
    auto g = stdx::bind_back(taker{}, B{x.b}, A{x.a});
    auto fv = stdx::bind_front<taker{}>(A{x.a}, B{x.b});
    auto gv = stdx::bind_back<taker{}>(B{x.b}, A{x.a});
    vf::each<2>([&](std::size_t) {
        called([&] { return f(A{x.c}); }, x.a, x.b, x.c);
        called([&] { return g(A{x.c}); }, x.c, x.b, x.a);
        called([&] { return fv(A{x.c}); }, x.a, x.b, x.c);
        called([&] { return gv(A{x.c}); }, x.c, x.b, x.a);
        called([&] { return std::as_const(f)(A{x.d}); }, x.a, x.b, x.d);
        called([&] { return std::as_const(g)(A{x.d}); }, x.d, x.b, x.a);
        called([&] { return std::as_const(fv)(A{x.d}); }, x.a, x.b, x.d);
        called([&] { return std::as_const(gv)(A{x.d}); }, x.d, x.b, x.a);
    });
    A mine{x.c};
    called([&] { return f(mine); }, x.a, x.b, x.c);
    called([&] { return g(mine); }, x.c, x.b, x.a);
    called([&] { return fv(mine); }, x.a, x.b, x.c);
    called([&] { return gv(mine); }, x.c, x.b, x.a);
    called([&] { return stdx::bind_front(taker{}, mine, B{x.b})(mine); }, x.c,
           x.b, x.c);
    vf_assert(mine.v == x.c, "an lvalue argument is not taken away");
    called([&] { return std::move(f)(A{x.e}); }, x.a, x.b, x.e);
    called([&] { return std::move(g)(A{x.e}); }, x.e, x.b, x.a);
    called([&] { return std::move(fv)(A{x.e}); }, x.a, x.b, x.e);
    called([&] { return std::move(gv)(A{x.e}); }, x.e, x.b, x.a);
    vf_reach("kept");
}
// the function and what is bound are called in the category of the wrapper,
// and reference arguments stay references
VF_HARNESS(categories) {
    u32 const v = vf::any<u32>();
    auto f = stdx::bind_front(qualified{});
    auto g = stdx::bind_back(qualified{}, v);
    vf_assert(f(v) == 1 and g(v) == 1, "as an lvalue");
    vf_assert(std::as_const(f)(v) == 2 and std::as_const(g)(v) == 2,
              "as a constant");
    vf_assert(std::move(f)(v) == 3 and std::move(g)(v) == 3,
              "as a temporary");
    u32 x = v;
    auto add = [](u32 n, u32 &to) {
        to += n;
        return n;
    };
    auto sub = [](u32 &from, u32 n) {
        from -= n;
        return n;
    };
    vf_assert(stdx::bind_front(add, 3u)(x) == 3u and x == v + 3u,
              "a reference argument after what is bound");
    vf_assert(stdx::bind_back(sub, 4u)(x) == 4u and x == v - 1u,
              "a reference argument before what is bound");
    auto count = stdx::bind_front([](u32 &n) { return ++n; }, v);
    vf_assert(count() == v + 1u and count() == v + 2u,
              "what is bound can be changed by the call");
    auto count_back = stdx::bind_back([](u32 &n) { return ++n; }, v);
    vf_assert(count_back() == v + 1u and count_back() == v + 2u,
              "what is bound last can be changed by the call");
    vf_reach("categories");
}
VF_HARNESS(result_of) {
    vals x;
    u32 calls = 0;
    u32 v = x.a;
    stdx::with_result_of w{[&] {
        ++calls;
        return v;
    }};
    vf_assert(calls == 0, "not called before it is converted");
    u32 const y = w;
    vf_assert(y == x.a and calls == 1, "called once for a conversion");
    v = x.b;
    u32 const z = std::as_const(w);
    vf_assert(z == x.b and calls == 2, "called again for the next");
    auto made = stdx::with_result_of{[&] { return A{x.c}; }};
    std::optional<A> o;
    o.emplace(made);
    vf_assert(o->v == x.c, "an object made in place");
    struct both {
        u32 a;
        u32 b;
        u32 operator()() { return a; }
        u32 operator()() const { return b; }
    };
    stdx::with_result_of<both> q{{x.d, x.e}};
    u32 const nc = q;
    u32 const c = std::as_const(q);
    vf_assert(nc == x.d and c == x.e, "the call operator of the category");
    vf_reach("result_of");
}
VF_HARNESS(overloads) {
    vals x;
    stdx::overload o{[&](A a) { return mix(1, a.v); },
                     [&](B const &b) { return mix(2, b.v); },
                     [&](u32 u) { return mix(3, u); },
                     [&](u32 u, A a) { return mix(u, a.v); }};
    vf_assert(o(A{x.a}) == mix(1, x.a) and o(B{x.b}) == mix(2, x.b) and
                  o(x.c) == mix(3, x.c) and o(x.d, A{x.e}) == mix(x.d, x.e),
              "the matching callable");
    vf_assert(std::as_const(o)(B{x.b}) == mix(2, x.b), "on a constant");
    vf_reach("overloads");
}
namespace {
struct plus_me {
    u32 v;
    u32 operator+() const & { return v; }
    u32 operator+() && { return v ^ 1u; }
};
template <typename T> void plain_plus() {
    T const t = vf::any<T>();
    vf_assert(stdx::unary_plus<>{}(t) == +t and stdx::unary_plus<T>{}(t) == +t,
              "plus of any value");
    vf_assert(std::is_same_v<decltype(stdx::unary_plus<>{}(t)), decltype(+t)>,
              "with its type");
}
} // namespace
VF_HARNESS(wrappers) {
    plain_plus<int>();
    plain_plus<std::int8_t>();
    plain_plus<std::uint16_t>();
    plain_plus<std::uint64_t>();
    u32 const v = some();
    plus_me p{v};
    vf_assert(stdx::unary_plus<>{}(p) == v and
                  stdx::unary_plus<plus_me>{}(p) == v and
                  stdx::unary_plus<>{}(plus_me{v}) == (v ^ 1u) and
                  stdx::unary_plus<plus_me>{}(plus_me{v}) == (v ^ 1u),
              "plus in the category of the argument");
    A a{v};
    A const &ca = a;
    vf_assert(&stdx::safe_identity(a) == &a and
                  &stdx::safe_identity(ca) == &a and a.v == v,
              "identity of an lvalue is that lvalue");
    vf_assert(std::is_same_v<decltype(stdx::safe_identity(a)), A &> and
                  std::is_same_v<decltype(stdx::safe_identity(ca)),
                                 A const &> and
                  std::is_same_v<decltype(stdx::safe_identity(A{v})), A>,
              "identity of a temporary is a value");
    vf_assert(stdx::safe_identity(std::move(a)).v == v,
              "identity of a temporary keeps its value");
    u32 arr[4]{some(), some(), some(), some()};
    std::size_t const i = vf::below(4);
    u32 *const q = arr + i;
    vf_assert(&stdx::dereference<>{}(q) == arr + i and
                  &stdx::dereference<u32 *>{}(q) == arr + i and
                  &stdx::dereference<>{}(&arr[i]) == arr + i,
              "dereference gives the object itself");
    vf_reach("wrappers");
}
VF_HARNESS(groups) {
    vals x;
    stdx::for_each_n_args(
        [](u32 a, u32 b) {
            tape::put(a);
            tape::put(b);
        },
        x.a, x.b, x.c, x.d, x.e, x.a);
    vf_assert(tape::is(x.a, x.b, x.c, x.d, x.e, x.a), "groups of its arity");
    tape::clear();
    stdx::for_each_n_args<3>(recorder{7u}, x.a, B{x.b}, x.c, A{x.d}, x.e, x.c);
    vf_assert(tape::is(7u, x.a, x.b, x.c, 7u, x.d, x.e, x.c), "groups of three");
    tape::clear();
    stdx::for_each_n_args<1>(recorder{x.e}, x.a, x.b);
    vf_assert(tape::is(x.e, x.a, x.e, x.b), "groups of one");
    tape::clear();
    stdx::for_each_n_args<2>(recorder{x.e});
    vf_assert(tape::is(), "no arguments, no call");
    stdx::for_each_n_args([](A a) { tape::put(a.v); }, A{x.a}, A{x.b}, A{x.c});
    vf_assert(tape::is(x.a, x.b, x.c), "temporaries are handed over");
    tape::clear();
    A l{x.d};
    stdx::for_each_n_args([](A a, B b) {
        tape::put(a.v);
        tape::put(b.v);
    }, l, B{x.a}, std::move(l), B{x.b});
    vf_assert(tape::is(x.d, x.a, x.d, x.b), "lvalues are not taken away");
    u32 p = x.a;
    u32 q = x.b;
    stdx::for_each_n_args<2>([](u32 &r, u32 n) { r += n; }, p, 1u, q, x.c);
    vf_assert(p == x.a + 1u and q == x.b + x.c, "references stay references");
    u32 n = 0;
    auto counter = [c = 0u, &n](u32) mutable { n = ++c; };
    stdx::for_each_n_args(counter, x.a, x.b, x.c);
    vf_assert(n == 3u, "the same function each time");
    vf_reach("groups");
}
