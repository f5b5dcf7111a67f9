// cx_vector: bounded sequence.
//
// Pre-state: any state reachable through the public interface.  The object is
// first filled with arbitrary leftovers, cleared, then given an arbitrary
// sequence of arbitrary length; together with the checked invariant
// size <= capacity this covers every value of the representation, so the
// per-operation contracts below compose to all histories.
#include "vf.hpp"

#include <stdx/cx_vector.hpp>

#include <utility>

using T = std::uint16_t;

template <std::size_t N> struct model {
    T a[N]{};
    std::size_t n{};
};

template <std::size_t N>
static void make(stdx::cx_vector<T, N> &v, model<N> &m) {
    for (std::size_t i = 0; i < N; ++i) {
        v.push_back(vf::any<T>());
    }
    v.clear();
    m.n = vf::upto(N);
    for (std::size_t i = 0; i < N; ++i) {
        if (i < m.n) {
            T x = vf::any<T>();
            m.a[i] = x;
            v.push_back(x);
        }
    }
}

template <std::size_t N>
static void same(stdx::cx_vector<T, N> &v, model<N> const &m) {
    auto const &c = v;
    vf_assert(c.size() == m.n, "size is the number of elements");
    vf_assert(c.empty() == (m.n == 0), "empty iff no elements");
    vf_assert(c.full() == (m.n == N), "full iff size equals capacity");
    vf_assert(c.capacity() == N, "capacity is N");
    vf_assert(stdx::ct_capacity_v<stdx::cx_vector<T, N>> == N,
              "ct_capacity is N");
    for (std::size_t i = 0; i < N; ++i) {
        if (i < m.n) {
            vf_assert(c[i] == m.a[i], "element i is the i-th element");
            vf_assert(v[i] == m.a[i], "mutable element i is the i-th element");
            vf_assert(&c[i] == &v[i], "both index operators name one object");
        }
    }
}

template <std::size_t N> static void push_pop() {
    stdx::cx_vector<T, N> v;
    model<N> m;
    vf_assert(v.size() == 0 and v.empty(), "default constructed is empty");
    make(v, m);
    same(v, m);
    if (m.n < N) {
        T x = vf::any<T>();
        bool move = vf::any<bool>();
        T y = x;
        T &r = move ? v.push_back(std::move(y)) : v.push_back(x);
        vf_reach("push_back");
        m.a[m.n++] = x;
        same(v, m);
        vf_assert(&r == &v[m.n - 1], "push_back returns the new element");
        T z = vf::any<T>();
        r = z;
        m.a[m.n - 1] = z;
        same(v, m);
    }
    if (m.n > 0) {
        T x = v.pop_back();
        vf_reach("pop_back");
        vf_assert(x == m.a[m.n - 1], "pop_back returns the last element");
        --m.n;
        same(v, m);
    }
    v.clear();
    m.n = 0;
    same(v, m);
}

template <std::size_t N> static void self_push() {
    stdx::cx_vector<T, N> v;
    model<N> m;
    make(v, m);
    vf_assume(m.n > 0 and m.n < N);
    std::size_t i = vf::below(m.n);
    v.push_back(v[i]);
    m.a[m.n] = m.a[i];
    ++m.n;
    same(v, m);
    vf_reach("push own element");
}

template <std::size_t N> static void access() {
    stdx::cx_vector<T, N> v;
    model<N> m;
    make(v, m);
    auto const &c = v;
    std::size_t k = 0;
    for (auto const &e : c) {
        vf_assert(k < m.n and e == m.a[k < N ? k : 0], "forward iteration");
        ++k;
    }
    vf_assert(k == m.n, "forward iteration visits every element");
    k = m.n;
    for (auto it = c.rbegin(); it != c.rend(); ++it) {
        vf_assert(k > 0 and *it == m.a[k > 0 ? k - 1 : 0], "reverse iteration");
        --k;
    }
    vf_assert(k == 0, "reverse iteration visits every element");
    k = m.n;
    for (auto it = v.rbegin(); it != v.rend(); ++it) {
        vf_assert(k > 0 and *it == m.a[k > 0 ? k - 1 : 0],
                  "mutable reverse iteration");
        --k;
    }
    vf_assert(k == 0, "mutable reverse iteration visits every element");
    vf_assert(c.cbegin() == c.begin() and c.cend() == c.end(),
              "cbegin/cend agree with begin/end");
    vf_assert(v.begin() == c.begin() and v.end() == c.end(),
              "mutable begin/end agree with const ones");
    vf_assert(static_cast<std::size_t>(v.end() - v.begin()) == m.n,
              "end - begin is the size");
    vf_assert(c.crbegin() == c.rbegin() and c.crend() == c.rend(),
              "crbegin/crend agree");
    if (m.n > 0) {
        vf_assert(c.front() == m.a[0] and &v.front() == &v[0], "front");
        vf_assert(c.back() == m.a[m.n - 1] and &v.back() == &v[m.n - 1],
                  "back");
        vf_assert(&v.template get<0>() == &v[0] and &get<0>(v) == &v[0] and
                      &get<0>(c) == &c[0] and
                      std::is_same_v<decltype(get<0>(v)), T &> and
                      std::is_same_v<decltype(get<0>(c)), T const &>,
                  "get<0>");
    }
    if (m.n == N) {
        vf_assert(&v.template get<N - 1>() == &v[N - 1] and
                      &get<N - 1>(v) == &v[N - 1] and
                      &get<N - 1>(c) == &c[N - 1] and
                      &c.template get<N - 1>() == &c[N - 1],
                  "get<N-1>");
        vf_reach("full");
    }
    if (m.n > 0) {
        // writing through one element changes only that element
        std::size_t i = vf::below(m.n);
        T x = vf::any<T>();
        v[i] = x;
        m.a[i] = x;
        T f = vf::any<T>();
        v.front() = f;
        m.a[0] = f;
        T b = vf::any<T>();
        v.back() = b;
        m.a[m.n - 1] = b;
        same(v, m);
        vf_reach("write");
    }
    same(v, m);
}

template <std::size_t N> static void equality() {
    stdx::cx_vector<T, N> v, w;
    model<N> m, p;
    make(v, m);
    make(w, p);
    bool eq = m.n == p.n;
    for (std::size_t i = 0; i < N; ++i) {
        if (i < m.n and i < p.n and m.a[i] != p.a[i]) {
            eq = false;
        }
    }
    vf_assert((v == w) == eq, "== is equality of the sequences");
    vf_assert((v != w) == not eq, "!= is its negation");
    if (eq) {
        vf_reach("equal");
    } else {
        vf_reach("different");
    }
    same(v, m);
    same(w, p);
    auto u = v;
    vf_assert(u == v, "a copy equals its source");
    u = w;
    same(u, p);
}

template <std::size_t N> static void overwrite() {
    stdx::cx_vector<T, N> v;
    model<N> m;
    make(v, m);
    std::size_t k = vf::upto(N);
    model<N> w;
    w.n = k;
    for (std::size_t i = 0; i < N; ++i) {
        w.a[i] = vf::any<T>();
    }
    int calls = 0;
    bool touch = vf::any<bool>();
    resize_and_overwrite(v, [&](T *p, std::size_t sz) -> std::size_t {
        ++calls;
        vf_assert(sz == N, "resize_and_overwrite offers the whole capacity");
        for (std::size_t i = 0; i < N; ++i) {
            if (i < m.n) {
                vf_assert(p[i] == m.a[i], "existing elements are visible");
            }
            if (touch) {
                p[i] = w.a[i];
            }
        }
        return k;
    });
    vf_assert(calls == 1, "the callback runs once");
    vf_reach("overwrite");
    if (touch) {
        same(v, w);
    } else {
        vf_assert(v.size() == k, "size is what the callback returned");
        for (std::size_t i = 0; i < N; ++i) {
            if (i < m.n and i < k) {
                vf_assert(v[i] == m.a[i], "untouched elements are kept");
            }
        }
    }
}

#define INST(N)                                                                \
    VF_HARNESS(push_pop_##N) { push_pop<N>(); }                                \
    VF_HARNESS(access_##N) { access<N>(); }                                    \
    VF_HARNESS(equality_##N) { equality<N>(); }                                \
    VF_HARNESS(overwrite_##N) { overwrite<N>(); }
INST(1)
INST(2)
INST(4)
INST(7)
VF_HARNESS(self_push_2) { self_push<2>(); }
VF_HARNESS(self_push_5) { self_push<5>(); }

VF_HARNESS(construct) {
    T a = vf::any<T>();
    T b = vf::any<T>();
    T c = vf::any<T>();
    stdx::cx_vector<T, 5> v{a, b, c};
    model<5> m;
    m.n = 3;
    m.a[0] = a;
    m.a[1] = b;
    m.a[2] = c;
    same(v, m);
    stdx::cx_vector w{a, b};
    vf_assert((std::is_same_v<decltype(w), stdx::cx_vector<T, 2>>),
              "deduced capacity is the number of elements");
    model<2> p;
    p.n = 2;
    p.a[0] = a;
    p.a[1] = b;
    same(w, p);
    stdx::cx_vector<T, 1> one{a};
    model<1> q;
    q.n = 1;
    q.a[0] = a;
    same(one, q);
    vf_reach("construct");
}

// element type that distinguishes copying from moving
struct tok {
    std::uint32_t v{};
    constexpr tok() = default;
    constexpr explicit tok(std::uint32_t x) : v{x} {}
    tok(tok const &) = default;
    tok &operator=(tok const &) = default;
    tok(tok &&o) noexcept : v{o.v} { o.v = 0xdead; }
    tok &operator=(tok &&o) noexcept {
        v = o.v;
        if (&o != this) {
            o.v = 0xdead;
        }
        return *this;
    }
};
VF_HARNESS(moves) {
    stdx::cx_vector<tok, 3> v;
    std::uint32_t x = vf::any<std::uint32_t>();
    std::uint32_t y = vf::any<std::uint32_t>();
    std::uint32_t z = vf::any<std::uint32_t>();
    vf_assume(x != 0xdead and y != 0xdead and z != 0xdead);
    tok a{x};
    v.push_back(a);
    vf_assert(a.v == x, "push_back of an lvalue does not change it");
    v.push_back(tok{y});
    tok c{z};
    v.push_back(std::move(c));
    vf_assert(c.v == 0xdead, "push_back of an rvalue moves");
    vf_assert(v.size() == 3 and v[0].v == x and v[1].v == y and v[2].v == z,
              "elements in order");
    tok d = v.pop_back();
    vf_assert(d.v == z, "pop_back returns the element");
    vf_assert(v.size() == 2 and v[0].v == x and v[1].v == y,
              "the others are untouched");
    vf_reach("moves");
}
