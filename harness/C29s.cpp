// format strings are cut at their fields, and text around a field is kept.
#include "vf_consteval.hpp"
#define SIMULATE_FREESTANDING
#include "vf.hpp"

#include <stdx/ct_format.hpp>

#include <string_view>

namespace {
using namespace stdx::literals;
namespace d = stdx::detail;
namespace fd = stdx::fmt::detail;

// any string of up to N characters, and where its fields are: a { that is not
// doubled starts one, the next } ends it
template <std::size_t N> struct text {
    char c[N + 1];
    std::size_t n;
    std::size_t fields{};
    std::size_t from[N + 1];
    std::size_t to[N + 1];
    bool well_formed{true};

    explicit text(std::size_t len) : n{len} {
        vf::each<N>([&](std::size_t i) {
            c[i] = vf::any<char>();
            from[i] = 0;
            to[i] = 0;
        });
        c[N] = 0;
        from[N] = 0;
        to[N] = 0;
        // 0 outside, 1 after a { outside, 2 in a field
        int state = 0;
        for (std::size_t i = 0; i < n; ++i) {
            if (state == 0) {
                state = c[i] == '{' ? 1 : 0;
            } else if (state == 1 and c[i] == '{') {
                state = 0;
            } else {
                if (state == 1) {
                    from[fields] = i - 1;
                    state = 2;
                }
                well_formed = well_formed and c[i] != '{';
                if (c[i] == '}') {
                    to[fields++] = i + 1;
                    state = 0;
                }
            }
        }
        well_formed = well_formed and state == 0;
    }
    std::string_view view() const { return {c, n}; }
};

template <std::size_t N> void counts() {
    text<N> const t{N};
    vf_assume(t.well_formed);
    vf_assert(d::count_specifiers(t.view()) == t.fields, "every field counts");
    vf_reach("well-formed");
}
template <std::size_t N> void finds() {
    text<N> const t{N};
    vf_assume(t.well_formed);
    char const *const s = d::find_spec(t.c, t.c + N);
    vf_assert(s == t.c + (t.fields == 0 ? N : t.from[0]), "the first field");
    if (t.fields > 0) {
        char const *const u = d::find_spec(t.c + t.to[0], t.c + N);
        vf_assert(u == t.c + (t.fields == 1 ? N : t.from[1]), "the next field");
    }
    vf_reach("well-formed");
}
template <std::size_t N, std::size_t F> void splits() {
    text<N> const t{N};
    vf_assume(t.well_formed);
    vf_assume(t.fields == F);
    auto const s = d::split_specifiers<F + 1>(t.view());
    std::size_t at = 0;
    bool ok = true;
    vf::each<F>([&](std::size_t i) {
        ok = ok and s[i].view.data() == t.c + at and
             s[i].view.size() == t.to[i] - at and
             s[i].start == t.from[i] - at;
        at = t.to[i];
    });
    vf_assert(ok, "a part ends with its field");
    vf_assert(s[F].view.data() == t.c + at and s[F].view.size() == N - at and
                  s[F].start == N - at,
              "the rest is kept");
    vf_reach("well-formed");
}

// the text of a value with text around it: S in front, a field, E behind
constexpr auto plain = [] { return stdx::ct_string{"{}"}; };
constexpr auto inside = [] { return stdx::ct_string{"ab {} c}d"}; };
constexpr auto hex = [] { return stdx::ct_string{"0x{:x}!"}; };
template <typename V> void surrounded(V const &v) {
    char want[24];
    vf::each<24>([&](std::size_t i) { want[i] = 0; });
    std::size_t const n = fd::formatted_size({.len = 2, .base = 10}, v);
    fd::format_to({.len = 2, .base = 10}, want, v);
    vf_assert(n <= 8, "short");
    auto check = [&](auto fmt, std::string_view before, std::string_view after) {
        std::size_t const size = stdx::fmt::formatted_size(fmt, v);
        vf_assert(size == before.size() + n + after.size(),
                  "room for the text and the value");
        char buf[32];
        vf::each<32>([&](std::size_t i) { buf[i] = 0; });
        stdx::fmt::format_to(buf + 1, fmt, v);
        bool ok = true;
        for (std::size_t i = 0; i < before.size(); ++i) {
            ok = ok and buf[1 + i] == before[i];
        }
        vf_assert(ok, "the text in front");
        for (std::size_t i = 0; i < n; ++i) {
            ok = ok and buf[1 + before.size() + i] == want[i];
        }
        vf_assert(ok, "the value");
        for (std::size_t i = 0; i < after.size(); ++i) {
            ok = ok and buf[1 + before.size() + n + i] == after[i];
        }
        vf_assert(ok, "the text behind");
        vf_assert(buf[0] == 0 and buf[1 + size] == 0, "nothing else");
    };
    check(plain, "", "");
    check(inside, "ab ", " c}d");
    vf_reach("formatted");
}
template <std::size_t L> struct word {
    char c[L + 1];
    word() {
        vf::each<L>([&](std::size_t i) {
            c[i] = vf::any<char>();
            vf_assume(c[i] != 0);
        });
        c[L] = 0;
    }
};
template <std::size_t L> void strings() {
    word<L> const w;
    auto check = [&](auto v) {
        vf_assert(fd::formatted_size({}, v) == L, "its size");
        char buf[L + 2];
        vf::each<L + 2>([&](std::size_t i) { buf[i] = 0; });
        vf_assert(fd::format_to({}, buf + 1, v) == buf + 1 + L, "all of it");
        bool ok = buf[0] == 0;
        vf::each<L>([&](std::size_t i) { ok = ok and buf[1 + i] == w.c[i]; });
        vf_assert(ok, "its characters");
    };
    check(std::string_view{w.c, L});
    check(static_cast<char const *>(w.c));
    check(stdx::ct_string<L + 1>{w.c});
    vf_reach("string");
}
} // namespace
VF_HARNESS(count_0) { counts<0>(); }
VF_HARNESS(count_1) { counts<1>(); }
VF_HARNESS(count_2) { counts<2>(); }
VF_HARNESS(count_3) { counts<3>(); }
VF_HARNESS(count_4) { counts<4>(); }
VF_HARNESS(find_0) { finds<0>(); }
VF_HARNESS(find_1) { finds<1>(); }
VF_HARNESS(find_3) { finds<3>(); }
VF_HARNESS(find_5) { finds<5>(); }
VF_HARNESS(find_7) { finds<7>(); }
VF_HARNESS(split_0_0) { splits<0, 0>(); }
VF_HARNESS(split_3_0) { splits<3, 0>(); }
VF_HARNESS(split_5_0) { splits<5, 0>(); }
VF_HARNESS(split_2_1) { splits<2, 1>(); }
VF_HARNESS(split_4_1) { splits<4, 1>(); }
VF_HARNESS(split_5_1) { splits<5, 1>(); }
VF_HARNESS(split_4_2) { splits<4, 2>(); }
VF_HARNESS(split_6_2) { splits<6, 2>(); }
VF_HARNESS(split_6_3) { splits<6, 3>(); }
VF_HARNESS(string_0) { strings<0>(); }
VF_HARNESS(string_1) { strings<1>(); }
VF_HARNESS(string_4) { strings<4>(); }
VF_HARNESS(around_char) { surrounded(vf::any<char>()); }
VF_HARNESS(around_u8) { surrounded(vf::any<std::uint8_t>()); }
VF_HARNESS(around_i8) { surrounded(vf::any<std::int8_t>()); }
VF_HARNESS(around_string) {
    word<3> const w;
    std::size_t const n = vf::upto(3);
    surrounded(std::string_view{w.c, n});
}
VF_HARNESS(around_hex) {
    auto const v = vf::any<std::uint8_t>();
    std::size_t const size = stdx::fmt::formatted_size(hex, v);
    char buf[12];
    vf::each<12>([&](std::size_t i) { buf[i] = 0; });
    stdx::fmt::format_to(buf, hex, v);
    constexpr char DIGITS[] = "0123456789abcdef";
    bool const two = v > 15;
    vf_assert(size == (two ? 5 : 4), "room for the text and the value");
    vf_assert(buf[0] == '0' and buf[1] == 'x', "the text in front");
    vf_assert(two ? buf[2] == DIGITS[v >> 4] and buf[3] == DIGITS[v & 15]
                  : buf[2] == DIGITS[v],
              "the value in base 16");
    vf_assert(buf[size - 1] == '!' and buf[size] == 0, "the text behind");
    vf_reach("formatted");
}
