// ct_format: the literal text is kept, compile-time arguments are put in, and
// run-time arguments of any value are collected in order.
#define SIMULATE_FREESTANDING
#include "tuples.hpp"

#include <stdx/ct_format.hpp>

#include <string_view>

namespace {
using namespace stdx::literals;

template <typename R> void text_is(R const &, std::string_view want) {
    constexpr auto s = +decltype(R::str){};
    std::string_view const got{s.value.data(), s.size()};
    bool ok = got.size() == want.size();
    if (ok) {
        for (std::size_t i = 0; i < want.size(); ++i) {
            ok = ok and got[i] == want[i];
        }
    }
    vf_assert(ok, "the text");
}
template <typename R, typename... Ts>
void args_are(R const &r, Ts const &...ts) {
    using args_t = std::remove_cvref_t<decltype(r.args)>;
    if constexpr (stdx::tuple_size_v<args_t> != sizeof...(Ts)) {
        vf_assert(false, "as many run-time arguments");
    } else {
        r.args.apply([&](auto const &...as) {
            vf_assert((std::is_same_v<std::remove_cvref_t<decltype(as)>, Ts> and
                       ...),
                      "the types of the run-time arguments");
            if constexpr ((std::is_same_v<std::remove_cvref_t<decltype(as)>,
                                          Ts> and
                           ...)) {
                vf_assert(((as == ts) and ...),
                          "the run-time arguments in order");
            }
        });
    }
}
// what is known about a named argument
struct named {
    std::string_view name;
    bool run_time;
    int begin;
    int end; // of a compile-time argument
};
template <typename... Ns, typename... Ws>
void names_are(stdx::type_list<Ns...>, Ws... ws) {
    if constexpr (sizeof...(Ns) != sizeof...(Ws)) {
        vf_assert(false, "as many named arguments");
    } else {
        auto check = []<typename N>(stdx::type_list<N>, named w) {
            constexpr auto n = N::name;
            std::string_view const got{n.value.data(), n.size()};
            bool ok = got.size() == w.name.size();
            if (ok) {
                for (std::size_t i = 0; i < got.size(); ++i) {
                    ok = ok and got[i] == w.name[i];
                }
            }
            vf_assert(ok, "the name");
            vf_assert(N::is_runtime() == w.run_time, "when it is known");
            vf_assert(N::begin == w.begin, "where it is");
            if (not w.run_time) {
                vf_assert(N::end == w.end, "where it ends");
            }
        };
        (check(stdx::type_list<Ns>{}, ws), ...);
    }
}
template <typename R, typename... Ws> void names_are(R const &, Ws... ws) {
    names_are(typename R::named_args_t{}, ws...);
}
enum struct color { red, green };
enum unscoped { one, two };
struct marked {
    int x;
    friend constexpr auto ct_format_as(marked const &m) { return m.x + 1; }
};
template <typename T, T...> struct chars {};
template <typename T, T... Ls, T... Rs>
constexpr auto operator+(chars<T, Ls...>, chars<T, Rs...>)
    -> chars<T, Ls..., Rs...> {
    return {};
}
} // namespace

VF_HARNESS(run_time) {
    auto a = vf::any<int>();
    auto const b = vf::any<int>();
    auto const was = a;
    auto const r = stdx::ct_format<"Hello {} and {}">(a, b);
    a = vf::any<int>();
    text_is(r, "Hello {} and {}");
    args_are(r, was, b);
    names_are(r);
    auto const s = stdx::ct_format<"{}{}{}{}">(A(1), B(2), A(3), b);
    text_is(s, "{}{}{}{}");
    args_are(s, A(1), B(2), A(3), b);
    auto const t = stdx::ct_format<"x">();
    text_is(t, "x");
    args_are(t);
    auto const u = stdx::ct_format<"">();
    text_is(u, "");
    args_are(u);
    vf_reach("run-time arguments");
}
VF_HARNESS(mixed) {
    auto const a = vf::any<int>();
    auto const b = vf::any<short>();
    auto const r =
        stdx::ct_format<"a {} b {} c {} d">(a, CX_VALUE(42), b);
    text_is(r, "a {} b 42 c {} d");
    args_are(r, a, b);
    auto const s = stdx::ct_format<"{}{}{}">(CX_VALUE('w'), a, CX_VALUE(-7));
    text_is(s, "w{}-7");
    args_are(s, a);
    auto const t = stdx::ct_format<"{}, {}">(CX_VALUE("one"), CX_VALUE("two"));
    text_is(t, "one, two");
    args_are(t);
    auto const u = stdx::ct_format<"<{}|{}|{}|{}>">(
        CX_VALUE("x"), "yz"_ctst, b, stdx::ct<100>());
    text_is(u, "<x|yz|{}|100>");
    args_are(u, b);
    auto const v = stdx::ct_format<"{} {} {}">(CX_VALUE(color::green), a,
                                               CX_VALUE(two));
    text_is(v, "green {} two");
    args_are(v, a);
    auto const w = stdx::ct_format<"{}-{}">(std::integral_constant<int, 5>{},
                                            CX_VALUE(int));
    text_is(w, "5-int");
    vf_reach("mixed arguments");
}
VF_HARNESS(numbers) {
    text_is(stdx::ct_format<"{} {} {}">(CX_VALUE(0), CX_VALUE(-128),
                                        CX_VALUE(2147483647)),
            "0 -128 2147483647");
    text_is(stdx::ct_format<"{} {}">(
                CX_VALUE(-9223372036854775807ll - 1),
                CX_VALUE(18446744073709551615ull)),
            "-9223372036854775808 18446744073709551615");
    text_is(stdx::ct_format<"{:x} {:x} {:x}">(CX_VALUE(255), CX_VALUE(-255),
                                              CX_VALUE(0xdeadbeefu)),
            "ff -ff deadbeef");
    text_is(stdx::ct_format<"{:x}{}">(CX_VALUE(10), CX_VALUE(10)), "a10");
    vf_reach("numbers");
}
VF_HARNESS(specs) {
    auto const a = vf::any<int>();
    auto const b = vf::any<unsigned>();
    auto const r = stdx::ct_format<"{:08x}|{:x}|{:+}">(a, CX_VALUE(255), b);
    text_is(r, "{:08x}|ff|{:+}");
    args_are(r, a, b);
    vf_assert(stdx::num_fmt_specifiers<""> == 0 and
                  stdx::num_fmt_specifiers<"{{}}"> == 0 and
                  stdx::num_fmt_specifiers<"{{{}}}"> == 1 and
                  stdx::num_fmt_specifiers<"{} {:x}{{{abc}"> == 3,
              "number of fields");
    vf_reach("format specifications");
}
VF_HARNESS(names) {
    auto const a = vf::any<int>();
    auto const b = vf::any<int>();
    auto const r = stdx::ct_format<"{a} {b:x} {c:x}.">(a, CX_VALUE(42), b);
    text_is(r, "{} 2a {:x}.");
    args_are(r, a, b);
    names_are(r, named{"a", true, 0, 0}, named{"b", false, 3, 5},
              named{"c", true, 1, 0});
    auto const s = stdx::ct_format<"x{p}yy{q}{}{r:}">(
        CX_VALUE("abc"), CX_VALUE(1), a, b);
    text_is(s, "xabcyy1{}{:}");
    args_are(s, a, b);
    names_are(s, named{"p", false, 1, 4}, named{"q", false, 6, 7},
              named{"r", true, 1, 0});
    vf_reach("named arguments");
}
VF_HARNESS(nested) {
    auto const a = vf::any<int>();
    auto const b = vf::any<short>();
    auto const c = vf::any<int>();
    auto const r = stdx::ct_format<"x{}y{}z">(
        stdx::ct_format<"({},{})">(a, b), c);
    text_is(r, "x({},{})y{}z");
    args_are(r, a, b, c);
    auto const s = stdx::ct_format<"{} {} {}">(
        a, stdx::ct_format<"[{}:{}]">(CX_VALUE(7), b), c);
    text_is(s, "{} [7:{}] {}");
    args_are(s, a, b, c);
    auto const t =
        stdx::ct_format<"<{}>{}">(stdx::ct_format<"{}!">(CX_VALUE(5)), c);
    text_is(t, "<5!>{}");
    args_are(t, c);
    auto const u = stdx::ct_format<"1{}3{}5">(
        stdx::ct_format<"2{}">(stdx::ct_format<"({})">(a)),
        stdx::ct_format<"4{}">(b));
    text_is(u, "12({})34{}5");
    args_are(u, a, b);
    vf_reach("nested formats");
}
VF_HARNESS(nested_names) {
    auto const a = vf::any<int>();
    auto const b = vf::any<short>();
    auto const c = vf::any<int>();
    auto const r = stdx::ct_format<"{} {} {n}">(
        a, stdx::ct_format<"[{p}:{m}]">(CX_VALUE(77), b), c);
    text_is(r, "{} [77:{}] {}");
    args_are(r, a, b, c);
    names_are(r, named{"p", false, 4, 6}, named{"m", true, 1, 0},
              named{"n", true, 2, 0});
    auto const s = stdx::ct_format<"{q}ab{}">(
        CX_VALUE(1), stdx::ct_format<"c{s}d">(CX_VALUE(2)));
    text_is(s, "1abc2d");
    names_are(s, named{"q", false, 0, 1}, named{"s", false, 4, 5});
    vf_reach("nested named arguments");
}
VF_HARNESS(conversions) {
    auto const m = vf::any<int>();
    vf_assume(m < 1000);
    auto const r = stdx::ct_format<"{}">(marked{m});
    text_is(r, "{}");
    args_are(r, m + 1);
    auto const s = stdx::ct_format<"A{}{}", chars>(CX_VALUE("B"), m);
    vf_assert(std::is_same_v<std::remove_cvref_t<decltype(s.str)>,
                             chars<char, 'A', 'B', '{', '}'>>,
              "the text as a type");
    args_are(s, m);
    auto const t = stdx::ct_format<"-{}-">(s);
    text_is(t, "-AB{}-");
    args_are(t, m);
    auto const u = stdx::ct_format<"{}{}">(chars<char, 'x', 'y'>{}, m);
    text_is(u, "xy{}");
    args_are(u, m);
    auto const v = +stdx::ct_format<"ab{}">(CX_VALUE(3));
    vf_assert(v == "ab3"_cts, "a result without arguments as a string");
    vf_reach("conversions");
}
VF_HARNESS(moved) {
    stdx::tuple<A> src{A(vf::any<std::uint8_t>())};
    auto const was = src;
    auto const r = stdx::ct_format<"{} {}">(std::move(src), B(9));
    text_is(r, "{} {}");
    args_are(r, was, B(9));
    auto const s = stdx::ct_format<"{}">(r);
    args_are(s, was, B(9));
    auto copy = r;
    auto const t = stdx::ct_format<"{}{}">(std::move(copy), B(3));
    args_are(t, was, B(9), B(3));
    vf_assert(r == r and (r == stdx::ct_format<"{} {}">(was, B(9))),
              "equal results");
    vf_reach("moved arguments");
}
