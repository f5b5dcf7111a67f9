// span: a view of exactly the elements it was made from.
#include "vf.hpp"

#include <stdx/cx_vector.hpp>
#include <stdx/span.hpp>

#include <array>
#include <cstddef>
#include <iterator>
#include <span>
#include <type_traits>

using T = std::uint16_t;
constexpr std::size_t M = 6;

static void fill(T (&a)[M]) {
    vf::each<M>([&](std::size_t i) { a[i] = vf::any<T>(); });
}

// s views the n elements from p on
template <typename S> static void views(S const &s, T const *p, std::size_t n) {
    vf_assert(s.size() == n, "size is the number of elements");
    vf_assert(s.size_bytes() == n * sizeof(T), "size_bytes");
    vf_assert(s.empty() == (n == 0), "empty iff no elements");
    vf_assert(s.data() == p, "data is the first element");
    vf_assert(s.begin() == p and s.end() == p + n and s.cbegin() == p and
                  s.cend() == p + n,
              "iterators delimit the elements");
    vf_assert(s.rbegin().base() == p + n and s.rend().base() == p and
                  s.crbegin().base() == p + n and s.crend().base() == p,
              "reverse iterators delimit the elements");
    if (n > 0) {
        std::size_t const i = vf::below(n);
        vf_assert(&s[i] == p + i and s[i] == p[i], "indexing");
        vf_assert(&s.front() == p and &s.back() == p + (n - 1),
                  "front and back");
        vf_assert(s.begin()[static_cast<std::ptrdiff_t>(i)] == p[i] and
                      s.rbegin()[static_cast<std::ptrdiff_t>(i)] ==
                          p[n - 1 - i],
                  "iteration both ways");
        vf_assert(&*s.rbegin() == p + (n - 1) and &*s.crbegin() == p + (n - 1),
                  "reverse iteration starts at the back");
    }
}

VF_CASES(dynamic_construct, M + 1) {
    T a[M];
    fill(a);
    std::size_t const b = vf_case;
    std::size_t const n = vf::upto(M - b);
    vf_assert(stdx::span<T>{}.size() == 0 and stdx::span<T>{}.empty() and
                  stdx::span<T>{}.data() == nullptr,
              "default is empty");
    views(stdx::span<T>{a + b, n}, a + b, n);
    views(stdx::span<T>{a + b, static_cast<int>(n)}, a + b, n);
    views(stdx::span<T>{a + b, a + b + n}, a + b, n);
    views(stdx::span<T const>{a + b, n}, a + b, n);
    views(stdx::span{a + b, n}, a + b, n);
    views(stdx::span{a + b, a + b + n}, a + b, n);
    views(stdx::span<T>{a}, a, M);
    stdx::span<T> const s{a + b, n};
    views(stdx::span<T>{s}, a + b, n);
    views(stdx::span<T const>{s}, a + b, n);
    stdx::span<T> t{};
    t = s;
    views(t, a + b, n);
    vf_assert((std::is_same_v<decltype(stdx::span{a + b, n}), stdx::span<T>>),
              "deduction from pointer and size");
    vf_reach("dynamic");
}
VF_HARNESS(from_std_array) {
    std::array<T, M> a{};
    for (auto &x : a) {
        x = vf::any<T>();
    }
    auto const &c = a;
    views(stdx::span<T>{a}, a.data(), M);
    views(stdx::span<T const>{c}, a.data(), M);
    views(stdx::span<T const>{a}, a.data(), M);
    views(stdx::span<T, M>{a}, a.data(), M);
    views(stdx::span<T, 4>{a}, a.data(), 4);
    views(stdx::span<T const, M>{c}, a.data(), M);
    views(stdx::span{a}, a.data(), M);
    views(stdx::span{c}, a.data(), M);
    vf_assert((std::is_same_v<decltype(stdx::span{a}), stdx::span<T, M>>) and
                  (std::is_same_v<decltype(stdx::span{c}),
                                  stdx::span<T const, M>>),
              "deduction from std::array");
    std::size_t const b = vf::upto(M);
    views(stdx::span{a.begin() + b, a.end()}, a.data() + b, M - b);
    stdx::cx_vector<T, M> v{};
    std::size_t const n = vf::upto(M);
    for (std::size_t i = 0; i < n; ++i) {
        v.push_back(a[i]);
    }
    views(stdx::span<T>{v}, &*v.begin(), n);
    views(stdx::span{v}, &*v.begin(), n);
    std::span<T> const std_s{a.data() + b, M - b};
    views(stdx::span<T>{std_s}, a.data() + b, M - b);
    vf_reach("std array");
}
VF_CASES(static_construct, M - 2) {
    T a[M];
    fill(a);
    std::size_t const b = vf_case;
    views(stdx::span<T, M>{a}, a, M);
    views(stdx::span<T, 4>{a}, a, 4);
    views(stdx::span{a}, a, M);
    views(stdx::span<T, 3>{a + b, 3}, a + b, 3);
    views(stdx::span<T, 3>{a + b, a + b + 3}, a + b, 3);
    views(stdx::span<T const, 3>{a + b, 3}, a + b, 3);
    views(stdx::span<T, 0>{a + b, 0}, a + b, 0);
    stdx::span<T, 3> const s{a + b, 3};
    views(stdx::span<T>{s}, a + b, 3);
    views(stdx::span<T const>{s}, a + b, 3);
    views(stdx::span<T const, 3>{s}, a + b, 3);
    stdx::span<T> const d{a + b, 3};
    views(stdx::span<T, 3>{d}, a + b, 3);
    stdx::span<T, 2> const e{stdx::span<T>{a + b, 3}};
    views(e, a + b, 2);
    vf_assert(stdx::ct_capacity_v<stdx::span<T, 3>> == 3, "compile-time size");
    vf_assert(&stdx::get<0>(s) == a + b and &stdx::get<2>(s) == a + b + 2,
              "get");
    vf_assert(&stdx::get<1>(d) == a + b + 1, "get on a dynamic span");
    vf_reach("static");
}
VF_CASES(dynamic_parts, M + 1) {
    T a[M];
    fill(a);
    std::size_t const b = vf_case;
    std::size_t const n = vf::upto(M - b);
    stdx::span<T> const s{a + b, n};
    T *const p = a + b;
    std::size_t const k = vf::upto(n);
    views(s.first(k), p, k);
    views(s.last(k), p + (n - k), k);
    std::size_t const c = vf::upto(n - k);
    views(s.subspan(k, c), p + k, c);
    views(s.subspan(k), p + k, n - k);
    views(s.subspan(k, stdx::dynamic_extent), p + k, n - k);
    std::size_t const any = vf::any<std::size_t>();
    std::size_t const clipped = any < n - k ? any : n - k;
    views(s.subspan(k, any), p + k, clipped);
    if (n >= 2) {
        views(s.first<2>(), p, 2);
        views(s.last<2>(), p + (n - 2), 2);
        views(s.first<0>(), p, 0);
        views(s.last<0>(), p + n, 0);
        views(s.subspan<1>(), p + 1, n - 1);
        views(s.subspan<2>(), p + 2, n - 2);
        views(s.subspan<1, 1>(), p + 1, 1);
        views(s.subspan<0, 2>(), p, 2);
        vf_assert((std::is_same_v<decltype(s.subspan<1, 1>()),
                                  stdx::span<T, 1>>) and
                      (std::is_same_v<decltype(s.first<2>()),
                                      stdx::span<T, 2>>),
                  "static counts give static extents");
        vf_reach("two or more");
    }
    vf_reach("parts");
}
VF_HARNESS(static_parts) {
    T a[M];
    fill(a);
    stdx::span<T, 5> const s{a + 1, 5};
    T *const p = a + 1;
    std::size_t const k = vf::upto(5);
    views(s.first(k), p, k);
    views(s.last(k), p + (5 - k), k);
    std::size_t const c = vf::upto(5 - k);
    views(s.subspan(k, c), p + k, c);
    views(s.subspan(k), p + k, 5 - k);
    std::size_t const any = vf::any<std::size_t>();
    views(s.subspan(k, any), p + k, any < 5 - k ? any : 5 - k);
    views(s.first<0>(), p, 0);
    views(s.first<3>(), p, 3);
    views(s.first<5>(), p, 5);
    views(s.last<0>(), p + 5, 0);
    views(s.last<2>(), p + 3, 2);
    views(s.last<5>(), p, 5);
    views(s.subspan<0>(), p, 5);
    views(s.subspan<2>(), p + 2, 3);
    views(s.subspan<5>(), p + 5, 0);
    views(s.subspan<1, 3>(), p + 1, 3);
    views(s.subspan<2, 3>(), p + 2, 3);
    views(s.subspan<4, 1>(), p + 4, 1);
    views(s.subspan<0, 5>(), p, 5);
    vf_assert((std::is_same_v<decltype(s.subspan<2>()), stdx::span<T, 3>>),
              "static offset of a static span");
    vf_reach("static parts");
}
VF_HARNESS(write_through) {
    T a[M];
    fill(a);
    std::size_t const b = vf::upto(M - 1);
    std::size_t const n = vf::upto(M - b);
    vf_assume(n > 0);
    std::size_t const j = vf::below(M);
    T const was = a[j];
    stdx::span<T> s{a + b, n};
    std::size_t const i = vf::below(n);
    T const v = vf::any<T>();
    s[i] = v;
    vf_assert(a[j] == (j == b + i ? v : was),
              "writing an element changes exactly that one");
    vf_reach("write");
}
VF_HARNESS(bytes) {
    T a[M];
    fill(a);
    std::size_t const b = vf::upto(M);
    std::size_t const n = vf::upto(M - b);
    stdx::span<T> const s{a + b, n};
    auto const r = stdx::as_bytes(s);
    auto const w = stdx::as_writable_bytes(s);
    auto const *p = reinterpret_cast<std::byte const *>(a + b);
    vf_assert(r.data() == p and r.size() == n * sizeof(T),
              "as_bytes covers the bytes");
    vf_assert(w.data() == p and w.size() == n * sizeof(T),
              "as_writable_bytes covers the bytes");
    vf_assert((std::is_same_v<decltype(r)::element_type, std::byte const>) and
                  (std::is_same_v<decltype(w)::element_type, std::byte>),
              "byte types");
    stdx::span<T, 3> const t{a + 1, 3};
    auto const q = stdx::as_bytes(t);
    auto const x = stdx::as_writable_bytes(t);
    vf_assert(q.data() == reinterpret_cast<std::byte const *>(a + 1) and
                  q.size() == 3 * sizeof(T) and
                  decltype(q)::extent == 3 * sizeof(T),
              "as_bytes of a static span");
    vf_assert(x.data() == reinterpret_cast<std::byte *>(a + 1) and
                  x.size() == 3 * sizeof(T) and
                  decltype(x)::extent == 3 * sizeof(T),
              "as_writable_bytes of a static span");
    vf_reach("bytes");
}
