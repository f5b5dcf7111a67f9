// call_by_need: every function called once with its run of arguments, the
// results in the order of the functions, then the arguments nothing took.
#include "tuples.hpp"

#include <stdx/call_by_need.hpp>

namespace {
using D = box<3>;
using E = box<4>;
struct vals {
    u32 a = some();
    u32 b = some();
    u32 c = some();
    u32 d = some();
    u32 e = some();
    u32 r = some();
    u32 s = some();
    vals() { tape::clear(); }
};
#define TYPES(EXPR, ...) (is_tuple_of<decltype(EXPR), __VA_ARGS__>)
} // namespace

VF_HARNESS(exact) {
    vals x;
    u32 f_calls = 0;
    u32 g_calls = 0;
    auto fs = stdx::tuple{[&](A a) {
                              ++f_calls;
                              return mix(a.v, x.r);
                          },
                          [&](B b, C c) {
                              ++g_calls;
                              return A{mix(b.v, c.v)};
                          }};
    auto args = stdx::tuple{A{x.a}, B{x.b}, C{x.c}};
    auto const r = stdx::call_by_need(fs, args);
    vf_assert(TYPES(r, u32, A) and get<0>(r) == mix(x.a, x.r) and
                  get<1>(r).v == mix(x.b, x.c),
              "each function on its arguments");
    vf_assert(f_calls == 1 and g_calls == 1, "each function is called once");
    vf_assert(get<0>(args).v == x.a and get<1>(args).v == x.b and
                  get<2>(args).v == x.c,
              "the arguments are kept");
    auto const q = stdx::call_by_need(
        fs, stdx::tuple{A{x.c}, B{x.a}, C{x.b}});
    vf_assert(get<0>(q) == mix(x.c, x.r) and get<1>(q).v == mix(x.a, x.b),
              "with temporaries");
    auto const p = stdx::call_by_need(std::move(fs), std::as_const(args));
    vf_assert(get<0>(p) == mix(x.a, x.r) and get<1>(p).v == mix(x.b, x.c) and
                  f_calls == 3 and g_calls == 3,
              "with constants");
    vf_reach("exact");
}
VF_HARNESS(other_order) {
    vals x;
    auto const r = stdx::call_by_need(
        stdx::tuple{[](C c) { return mix(3, c.v); },
                    [](A a) { return mix(1, a.v); },
                    [](B b) { return mix(2, b.v); }},
        stdx::tuple{A{x.a}, B{x.b}, C{x.c}});
    vf_assert(TYPES(r, u32, u32, u32) and get<0>(r) == mix(3, x.c) and
                  get<1>(r) == mix(1, x.a) and get<2>(r) == mix(2, x.b),
              "results in the order of the functions");
    vf_reach("other_order");
}
VF_HARNESS(unused) {
    vals x;
    // before, between and after what is used, temporaries
    auto const r = stdx::call_by_need(
        stdx::tuple{[](D d) { return mix(4, d.v); },
                    [](B b) { return mix(2, b.v); }},
        stdx::tuple{A{x.a}, B{x.b}, C{x.c}, D{x.d}, E{x.e}});
    vf_assert(TYPES(r, u32, u32, A, C, E) and get<0>(r) == mix(4, x.d) and
                  get<1>(r) == mix(2, x.b) and get<2>(r).v == x.a and
                  get<3>(r).v == x.c and get<4>(r).v == x.e,
              "what nothing took follows in its order");
    // lvalues come back as themselves
    auto args = stdx::tuple{A{x.a}, B{x.b}, C{x.c}};
    auto const q = stdx::call_by_need(
        stdx::tuple{[](B const &b) { return b.v; }}, args);
    vf_assert(TYPES(q, u32, A &, C &) and get<0>(q) == x.b and
                  &get<1>(q) == &get<0>(args) and
                  &get<2>(q) == &get<2>(args),
              "the unused arguments themselves");
    auto const p = stdx::call_by_need(
        stdx::tuple{[](C const &c) { return c.v; }}, std::as_const(args));
    vf_assert(TYPES(p, u32, A const &, B const &) and get<0>(p) == x.c and
                  &get<1>(p) == &get<0>(args) and &get<2>(p) == &get<1>(args),
              "the unused constants themselves");
    vf_assert(get<0>(args).v == x.a and get<1>(args).v == x.b and
                  get<2>(args).v == x.c,
              "the arguments are kept");
    auto const none =
        stdx::call_by_need(stdx::tuple{}, stdx::tuple{A{x.d}, A{x.e}});
    vf_assert(TYPES(none, A, A) and get<0>(none).v == x.d and
                  get<1>(none).v == x.e,
              "no functions, all arguments come back");
    vf_reach("unused");
}
VF_HARNESS(shared) {
    vals x;
    auto const fs = stdx::tuple{[](A a, B b) { return mix(a.v, b.v); },
                                [](B b, C c) { return mix(c.v, b.v); },
                                [](B b) { return mix(7, b.v); }};
    auto args = stdx::tuple{A{x.a}, B{x.b}, C{x.c}, D{x.d}};
    auto const r = stdx::call_by_need(fs, args);
    vf_assert(TYPES(r, u32, u32, u32, D &) and get<0>(r) == mix(x.a, x.b) and
                  get<1>(r) == mix(x.c, x.b) and get<2>(r) == mix(7, x.b) and
                  &get<3>(r) == &get<3>(args),
              "arguments used by several functions");
    auto const q = stdx::call_by_need(
        stdx::tuple{[](A const &a, B const &b) { return mix(a.v, b.v); },
                    [](B const &b, C const &c) { return mix(c.v, b.v); }},
        stdx::tuple{A{x.a}, B{x.b}, C{x.c}, D{x.d}});
    vf_assert(TYPES(q, u32, u32, D) and get<0>(q) == mix(x.a, x.b) and
                  get<1>(q) == mix(x.c, x.b) and get<2>(q).v == x.d,
              "temporaries used by several functions");
    vf_reach("shared");
}
// arguments of the same type: the first run that fits, in order
VF_HARNESS(same_type) {
    vals x;
    auto const args = stdx::tuple{A{x.a}, A{x.b}, A{x.c}, B{x.d}};
    auto const r = stdx::call_by_need(
        stdx::tuple{[](A p, A q) { return mix(p.v, q.v); },
                    [](A p) { return mix(9, p.v); },
                    [](A p, A q, B b) { return mix(mix(p.v, q.v), b.v); },
                    [](A p, B b) { return mix(b.v, p.v); }},
        args);
    vf_assert(TYPES(r, u32, u32, u32, u32) and get<0>(r) == mix(x.a, x.b) and
                  get<1>(r) == mix(9, x.a) and
                  get<2>(r) == mix(mix(x.b, x.c), x.d) and
                  get<3>(r) == mix(x.d, x.c),
              "the first run of arguments that fits");
    vf_reach("same_type");
}
// the longest run from the first place: defaults are supplied if possible
VF_HARNESS(longest) {
    vals x;
    auto const fs =
        stdx::tuple{[](A a, u32 v = 17u) { return mix(a.v, v); },
                    [](B b, u32 v = 18u, u32 w = 19u) {
                        return mix(mix(b.v, v), w);
                    }};
    auto const r = stdx::call_by_need(
        fs, stdx::tuple{A{x.a}, x.b, B{x.c}, x.d, x.e, x.r});
    vf_assert(TYPES(r, u32, u32, u32) and get<0>(r) == mix(x.a, x.b) and
                  get<1>(r) == mix(mix(x.c, x.d), x.e) and get<2>(r) == x.r,
              "arguments for the defaults");
    auto const q =
        stdx::call_by_need(fs, stdx::tuple{A{x.a}, B{x.c}, x.d});
    vf_assert(TYPES(q, u32, u32) and get<0>(q) == mix(x.a, 17u) and
                  get<1>(q) == mix(mix(x.c, x.d), 19u),
              "defaults");
    auto const many = stdx::call_by_need(
        stdx::tuple{[](auto... vs) -> u32 { return (0u + ... + vs); }},
        stdx::tuple{x.a, x.b, x.c});
    vf_assert(TYPES(many, u32) and get<0>(many) == x.a + x.b + x.c,
              "all of them if all fit");
    auto const nullary = stdx::call_by_need(
        stdx::tuple{[&] { return x.r; }}, stdx::tuple{A{x.a}});
    vf_assert(TYPES(nullary, u32, A) and get<0>(nullary) == x.r and
                  get<1>(nullary).v == x.a,
              "no arguments needed");
    auto const empty =
        stdx::call_by_need(stdx::tuple{[&] { return x.s; }}, stdx::tuple{});
    vf_assert(TYPES(empty, u32) and get<0>(empty) == x.s,
              "no arguments given");
    vf_reach("longest");
}
VF_HARNESS(no_result) {
    vals x;
    auto const r = stdx::call_by_need(
        stdx::tuple{[&](A a) { tape::put(mix(1, a.v)); },
                    [&](B b) { return mix(2, b.v); },
                    [&](C c) { tape::put(mix(3, c.v)); }},
        stdx::tuple{A{x.a}, B{x.b}, C{x.c}, D{x.d}});
    vf_assert(TYPES(r, u32, D) and get<0>(r) == mix(2, x.b) and
                  get<1>(r).v == x.d,
              "results of the others only");
    vf_assert(tape::n == 2 and
                  ((tape::at[0] == mix(1, x.a) and
                    tape::at[1] == mix(3, x.c)) or
                   (tape::at[1] == mix(1, x.a) and
                    tape::at[0] == mix(3, x.c))),
              "functions without result are called once");
    vf_reach("no_result");
}
VF_HARNESS(references) {
    vals x;
    u32 target = x.a;
    auto args = stdx::tuple{A{x.a}, B{x.b}};
    auto const r = stdx::call_by_need(
        stdx::tuple{[](B &b) -> B & {
                        ++b.v;
                        return b;
                    },
                    [&](A const &) -> u32 & { return target; }},
        args);
    vf_assert(TYPES(r, B &, u32 &) and &get<0>(r) == &get<1>(args) and
                  &get<1>(r) == &target and get<1>(args).v == x.b + 1u and
                  get<0>(args).v == x.a,
              "references to the arguments themselves");
    auto const q = stdx::call_by_need(
        stdx::tuple{[](A &&a, B &&b) {
            A const taken{std::move(a)};
            return mix(taken.v, b.v);
        }},
        stdx::tuple{A{x.c}, B{x.d}, x.e});
    vf_assert(TYPES(q, u32, u32) and get<0>(q) == mix(x.c, x.d) and
                  get<1>(q) == x.e,
              "temporaries are handed over");
    u32 n = x.e;
    auto const p = stdx::call_by_need(
        stdx::tuple{[](u32 &v) { return ++v; }}, stdx::tuple<u32 &, A>{n, A{x.a}});
    vf_assert(TYPES(p, u32, A) and get<0>(p) == x.e + 1u and n == x.e + 1u and
                  get<1>(p).v == x.a,
              "arguments that are references");
    vf_reach("references");
}
VF_HARNESS(functions) {
    vals x;
    struct fn {
        u32 v;
        u32 operator()(A a) & { return mix(v, a.v); }
        u32 operator()(A a) const & { return mix(v, a.v); }
        u32 operator()(A a) && { return mix(v, a.v); }
    };
    auto fs = stdx::tuple{fn{x.r}, fn{x.s}};
    auto const args = stdx::tuple{A{x.a}};
    auto const q = stdx::call_by_need(
        fs, args);
    vf_assert(TYPES(q, u32, u32) and get<0>(q) == mix(x.r, x.a) and
                  get<1>(q) == mix(x.s, x.a),
              "each function with its own state");
    vf_assert(get<0>(fs).v == x.r and get<1>(fs).v == x.s,
              "the functions are kept");
    vf_reach("functions");
}
