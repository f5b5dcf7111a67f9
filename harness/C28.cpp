// compile-time strings: all contents of several lengths.
#include "vf_consteval.hpp"
#include "vf.hpp"

#include <stdx/ct_string.hpp>

#include <array>
#include <cstddef>
#include <string_view>
#include <utility>

namespace {
using namespace stdx::literals;

// any string of L characters (any of them may be null)
template <std::size_t L> struct text {
    char c[L + 1];
    text() {
        vf::each<L>([&](std::size_t i) { c[i] = vf::any<char>(); });
        c[L] = 0;
    }
};
template <std::size_t L> bool holds(stdx::ct_string<L + 1> const &s, char const *t) {
    bool ok = s.value.size() == L + 1 and s.value[L] == 0;
    vf::each<L>([&](std::size_t i) { ok = ok and s.value[i] == t[i]; });
    return ok;
}
bool same(char const *a, std::size_t n, char const *b, std::size_t m) {
    bool ok = n == m;
    vf::each<6>([&](std::size_t i) {
        if (i < n and i < m) {
            ok = ok and a[i] == b[i];
        }
    });
    return ok;
}

template <std::size_t L> void contents() {
    text<L> t;
    stdx::ct_string<L + 1> s{t.c};
    vf_assert(holds<L>(s, t.c), "the characters it was built from");
    vf_assert(s.size() == L and s.empty() == (L == 0) and
                  s.capacity() == L + 1,
              "size, empty and capacity");
    auto const &k = s;
    vf_assert(s.end() - s.begin() == L and k.end() - k.begin() == L and
                  &*k.begin() == k.value.data() and
                  &*s.begin() == s.value.data(),
              "iteration covers the characters");
    vf_assert(k.rend() - k.rbegin() == L, "reverse iteration has its size");
    std::size_t i = 0;
    bool ok = true;
    for (char c : k) {
        ok = ok and i < L and c == t.c[i];
        ++i;
    }
    vf_assert(ok and i == L, "iteration in order");
    for (auto it = k.rbegin(); it != k.rend(); ++it) {
        --i;
        ok = ok and i < L and *it == t.c[i];
    }
    vf_assert(ok and i == 0, "reverse iteration in reverse order");
    auto const v = static_cast<std::string_view>(k);
    vf_assert(v.size() == L and v.data() == k.value.data(),
              "the view of the characters");
    if constexpr (L > 0) {
        std::size_t const at = vf::below(L);
        char const c = vf::any<char>();
        s.begin()[at] = c;
        t.c[at] = c;
        vf_assert(holds<L>(s, t.c), "writing through iteration");
    }
    vf_reach("contents");
}
template <std::size_t L> void building() {
    text<L> t;
    stdx::ct_string<L + 1> const p{&t.c[0], L};
    vf_assert(holds<L>(p, t.c), "from a pointer and a size");
    stdx::ct_string<L + 1> const v{std::string_view{t.c, L}};
    vf_assert(holds<L>(v, t.c), "from a view");
    stdx::ct_string<L + 1> const c{p};
    vf_assert(holds<L>(c, t.c), "a copy");
    std::size_t const n = vf::upto(L);
    stdx::ct_string<L + 1> const part{&t.c[0], n};
    bool ok = part.value[L] == 0;
    vf::each<L>([&](std::size_t i) {
        ok = ok and part.value[i] == (i < n ? t.c[i] : char{});
    });
    vf_assert(ok, "what is not given is null");
    stdx::ct_string<L + 1> const none{};
    vf::each<L + 1>([&](std::size_t i) { ok = ok and none.value[i] == 0; });
    vf_assert(ok, "null by default");
    vf_reach("building");
}
template <std::size_t L, std::size_t M> void compare() {
    text<L> a;
    text<M> b;
    stdx::ct_string<L + 1> const x{a.c};
    stdx::ct_string<M + 1> const y{b.c};
    bool const eq = same(a.c, L, b.c, M);
    vf_assert((x == y) == eq and (y == x) == eq and (x != y) == not eq,
              "equal when length and characters are");
    vf_assert(x == x, "equal to itself");
    if constexpr (L == M) {
        if (eq) {
            vf_reach("equal strings");
        }
    }
    if (not eq) {
        vf_reach("different strings");
    }
    vf_reach("compare");
}
template <std::size_t L, std::size_t M> void join() {
    text<L> a;
    text<M> b;
    stdx::ct_string<L + 1> const x{a.c};
    stdx::ct_string<M + 1> const y{b.c};
    auto const r = x + y;
    vf_assert(r.size() == L + M and r.value.size() == L + M + 1,
              "size of a concatenation");
    bool ok = r.value[L + M] == 0;
    vf::each<L>([&](std::size_t i) { ok = ok and r.value[i] == a.c[i]; });
    vf::each<M>([&](std::size_t i) { ok = ok and r.value[L + i] == b.c[i]; });
    vf_assert(ok, "the left characters, then the right ones");
    vf_assert(holds<L>(x, a.c) and holds<M>(y, b.c), "the operands are kept");
    auto const with = x + "xyz"_ctst;
    ok = with.size() == L + 3 and with.value[L] == 'x' and
         with.value[L + 1] == 'y' and with.value[L + 2] == 'z' and
         with.value[L + 3] == 0;
    vf::each<L>([&](std::size_t i) { ok = ok and with.value[i] == a.c[i]; });
    vf_assert(ok, "followed by a string type");
    auto const pre = "xyz"_ctst + y;
    ok = pre.size() == M + 3 and pre.value[0] == 'x' and pre.value[1] == 'y' and
         pre.value[2] == 'z' and pre.value[M + 3] == 0;
    vf::each<M>([&](std::size_t i) { ok = ok and pre.value[3 + i] == b.c[i]; });
    vf_assert(ok, "after a string type");
    vf_reach("join");
}

template <typename T, T...> struct chars {};

// the positions of the separator are the set bits of PATTERN
template <std::size_t L, unsigned PATTERN> constexpr auto patterned() {
    char c[L + 1]{};
    for (std::size_t i = 0; i < L; ++i) {
        c[i] = (PATTERN >> i) & 1u ? '/' : static_cast<char>('a' + i);
    }
    return stdx::ct_string<L + 1>{c};
}
template <std::size_t L, unsigned PATTERN> void split_one() {
    constexpr auto s = patterned<L, PATTERN>();
    auto const p = stdx::split<s, '/'>();
    std::size_t at = L;
    for (std::size_t i = L; i > 0; --i) {
        if ((PATTERN >> (i - 1)) & 1u) {
            at = i - 1;
        }
    }
    vf_assert(p.first.size() == at, "the part before ends at the first one");
    bool ok = p.first.value[p.first.size()] == 0;
    for (std::size_t i = 0; i < p.first.size(); ++i) {
        ok = ok and p.first.value[i] == s.value[i];
    }
    vf_assert(ok, "the characters before it");
    vf_assert(p.second.size() == (at == L ? 0 : L - at - 1),
              "the part after has the rest");
    ok = p.second.value[p.second.size()] == 0;
    for (std::size_t i = 0; i < p.second.size(); ++i) {
        ok = ok and p.second.value[i] == s.value[at + 1 + i];
    }
    vf_assert(ok, "the characters after it");
}
template <std::size_t L> void splits() {
    [&]<std::size_t... Ps>(std::index_sequence<Ps...>) {
        (split_one<L, Ps>(), ...);
    }(std::make_index_sequence<(1u << L)>{});
    vf_reach("splits");
}
} // namespace

VF_HARNESS(contents_0) { contents<0>(); }
VF_HARNESS(contents_1) { contents<1>(); }
VF_HARNESS(contents_2) { contents<2>(); }
VF_HARNESS(contents_5) { contents<5>(); }
VF_HARNESS(building_0) { building<0>(); }
VF_HARNESS(building_1) { building<1>(); }
VF_HARNESS(building_4) { building<4>(); }
VF_HARNESS(compare_0_0) {
    stdx::ct_string<1> const x{""};
    vf_assert(x == x and not(x != x) and x == stdx::ct_string<1>{},
              "empty strings are equal");
    vf_reach("compare");
}
VF_HARNESS(compare_0_1) { compare<0, 1>(); }
VF_HARNESS(compare_1_1) { compare<1, 1>(); }
VF_HARNESS(compare_2_3) { compare<2, 3>(); }
VF_HARNESS(compare_3_3) { compare<3, 3>(); }
VF_HARNESS(compare_4_1) { compare<4, 1>(); }
VF_HARNESS(compare_5_5) { compare<5, 5>(); }
VF_HARNESS(join_0_0) { join<0, 0>(); }
VF_HARNESS(join_0_2) { join<0, 2>(); }
VF_HARNESS(join_1_1) { join<1, 1>(); }
VF_HARNESS(join_3_0) { join<3, 0>(); }
VF_HARNESS(join_3_2) { join<3, 2>(); }
VF_HARNESS(join_2_5) { join<2, 5>(); }
VF_HARNESS(split_0) { splits<0>(); }
VF_HARNESS(split_1) { splits<1>(); }
VF_HARNESS(split_2) { splits<2>(); }
VF_HARNESS(split_3) { splits<3>(); }
VF_HARNESS(split_4) { splits<4>(); }
VF_HARNESS(types) {
    constexpr auto t = chars<char, 'h', 'e', 'y'>{};
    auto const s = stdx::ct_string_from_type(t);
    vf_assert(s.size() == 3 and s == "hey"_cts, "from a type of characters");
    auto const e = stdx::ct_string_from_type(chars<char>{});
    vf_assert(e.size() == 0 and e.empty() and e == ""_cts, "from none");
    vf_assert(std::is_same_v<stdx::ct_string_to_type_t<"hey"_cts, chars>,
                             std::remove_cv_t<decltype(t)>> and
                  std::is_same_v<stdx::ct_string_to_type_t<""_cts, chars>,
                                 chars<char>>,
              "to a type of characters");
    auto const w = "hello"_ctst;
    vf_assert(+w == "hello"_cts and w() == "hello"_cts and w.size() == 5 and
                  w.value == "hello"_cts,
              "a string type has its string");
    vf_assert(w == "hello"_ctst and not(w == "hellp"_ctst) and
                  not(w == "hell"_ctst) and w != "jello"_ctst,
              "string types compare as strings");
    vf_assert(+("ab"_ctst + "cde"_ctst) == "abcde"_cts and
                  +(""_ctst + "x"_ctst) == "x"_cts,
              "string types concatenate as strings");
    vf_assert(stdx::ct_string{w} == "hello"_cts and
                  +stdx::ct<"hello">() == "hello"_cts,
              "conversions of a string type");
    vf_reach("types");
}
