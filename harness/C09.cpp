// cx_set: a set of unique keys.
//
// Pre-state: any set of keys, any order in storage (insertion order is
// arbitrary, removal order is exercised by a preceding erase), any leftovers.
#include "vf.hpp"

#include <stdx/cx_set.hpp>

#include <utility>

using K = std::uint8_t;

// model: the set of present keys among all 256, tracked by an arbitrary
// witness key w (universally quantified) plus the count
template <std::size_t N> struct model {
    K a[N]{};
    bool live[N]{};
    [[nodiscard]] bool has(K k) const {
        bool r = false;
        for (std::size_t i = 0; i < N; ++i) {
            r = r or (live[i] and a[i] == k);
        }
        return r;
    }
    [[nodiscard]] std::size_t count() const {
        std::size_t r = 0;
        for (std::size_t i = 0; i < N; ++i) {
            r += live[i] ? 1u : 0u;
        }
        return r;
    }
    void remove(K k) {
        for (std::size_t i = 0; i < N; ++i) {
            if (a[i] == k) {
                live[i] = false;
            }
        }
    }
    void add(K k) {
        if (has(k)) {
            return;
        }
        bool done = false;
        for (std::size_t i = 0; i < N; ++i) {
            if (not done and not live[i]) {
                live[i] = true;
                a[i] = k;
                done = true;
            }
        }
    }
};

template <std::size_t N>
static void make(stdx::cx_set<K, N> &s, model<N> &m, std::size_t n) {
    // N members, then overwritten through the iterators, then N - n popped
    for (std::size_t i = 0; i < N; ++i) {
        s.insert(static_cast<K>(i));
    }
    for (auto &x : s) {
        x = vf::any<K>();
    }
    for (std::size_t i = n; i < N; ++i) {
        static_cast<void>(s.pop_back());
    }
    std::size_t i = 0;
    for (auto &x : s) {
        vf_assume(not m.has(x));
        m.a[i] = x;
        m.live[i] = true;
        ++i;
    }
}

template <std::size_t N>
static void same(stdx::cx_set<K, N> &s, model<N> const &m) {
    auto const &c = s;
    K w = vf::any<K>(); // every key
    vf_assert(c.contains(w) == m.has(w), "contains exactly the members");
    vf_assert(c.size() == m.count(), "size is the number of members");
    vf_assert(c.empty() == (m.count() == 0), "empty iff no members");
    vf_assert(c.capacity() == N and
                  stdx::ct_capacity_v<stdx::cx_set<K, N>> == N,
              "capacity is N");
    std::size_t hits = 0;
    std::size_t all = 0;
    for (auto const &k : c) {
        ++all;
        hits += k == w ? 1u : 0u;
    }
    vf_assert(all == m.count(), "iteration visits every member");
    vf_assert(hits == (m.has(w) ? 1u : 0u), "iteration visits it once");
    vf_assert(s.begin() == c.begin() and s.end() == c.end() and
                  c.cbegin() == c.begin() and c.cend() == c.end(),
              "iterators agree");
}

template <std::size_t N> static void ops(std::size_t n, std::size_t op) {
    stdx::cx_set<K, N> s;
    vf_assert(s.empty() and s.size() == 0, "default constructed is empty");
    model<N> m;
    make(s, m, n);
    same(s, m);
    K k = vf::any<K>();
    switch (op) {
    case 0: {
        vf_assume(m.count() < N or m.has(k));
        bool r = s.insert(k);
        vf_assert(r == not m.has(k), "insert reports whether it was new");
        m.add(k);
        vf_reach("insert");
        break;
    }
    case 1: {
        vf_assume(m.count() < N or m.has(k));
        K t = k;
        bool r = s.insert(std::move(t));
        vf_assert(r == not m.has(k), "insert(&&) reports whether it was new");
        m.add(k);
        vf_reach("insert rvalue");
        break;
    }
    case 2: {
        std::size_t r = s.erase(k);
        vf_assert(r == (m.has(k) ? 1u : 0u), "erase returns number removed");
        if (r != 0) {
            vf_reach("erased");
        } else {
            vf_reach("erase absent");
        }
        m.remove(k);
        break;
    }
    case 3:
        s.clear();
        for (auto &l : m.live) {
            l = false;
        }
        vf_reach("clear");
        break;
    case 4:
        if (m.count() > 0) {
            K x = s.pop_back();
            vf_assert(m.has(x), "pop_back returns a member");
            m.remove(x);
            vf_reach("pop_back");
        }
        break;
    default:
        if (m.count() > 0) {
            // the key to erase is the element itself
            std::size_t i = vf::below(s.size());
            K x = *(s.begin() + i);
            vf_assert(s.erase(*(s.begin() + i)) == 1, "erase own element");
            m.remove(x);
            vf_reach("erase own element");
        }
        break;
    }
    same(s, m);
}
template <std::size_t N, std::size_t M>
static void merge(std::size_t n1, std::size_t n2) {
    stdx::cx_set<K, N> s;
    model<N> m;
    make(s, m, n1);
    stdx::cx_set<K, M> o;
    model<M> p;
    make(o, p, n2);
    std::size_t extra = 0;
    for (std::size_t i = 0; i < M; ++i) {
        if (p.live[i] and not m.has(p.a[i])) {
            ++extra;
        }
    }
    vf_assume(m.count() + extra <= N);
    s.merge(o);
    for (std::size_t i = 0; i < M; ++i) {
        if (p.live[i]) {
            m.add(p.a[i]);
        }
    }
    same(s, m);
    same(o, p);
    if (extra > 0) {
        vf_reach("merge adds");
    }
}

#define INST(N)                                                                \
    VF_CASES(ops_##N, (N + 1) * 6) {                                           \
        auto const n = vf::take(vf_case, N + 1);                               \
        ops<N>(n, vf_case);                                                    \
    }
INST(1)
INST(2)
INST(3)
INST(4)
VF_CASES(merge_4_2, 5 * 3) {
    auto const n = vf::take(vf_case, 5);
    merge<4, 2>(n, vf_case);
}
VF_CASES(merge_3_3, 4 * 4) {
    auto const n = vf::take(vf_case, 4);
    merge<3, 3>(n, vf_case);
}

VF_HARNESS(construct) {
    K a = vf::any<K>();
    K b = vf::any<K>();
    K c = vf::any<K>();
    vf_assume(a != b and b != c and a != c);
    stdx::cx_set<K, 4> s{a, b, c};
    model<4> m;
    m.add(a);
    m.add(b);
    m.add(c);
    same(s, m);
    stdx::cx_set t{a, b, c};
    vf_assert(std::is_same_v<decltype(t), stdx::cx_set<K, 3>>,
              "deduced capacity is the number of keys");
    model<3> p;
    p.add(a);
    p.add(b);
    p.add(c);
    same(t, p);
    vf_assert(t.erase(b) == 1, "erase after construction");
    p.remove(b);
    same(t, p);
    vf_reach("construct");
}

// construction from a list that repeats a key
VF_HARNESS(construct_repeated) {
    K a = vf::any<K>();
    stdx::cx_set<K, 2> s{a, a};
    vf_reach("construct repeated");
    vf_assert(s.size() == 1, "repeated keys are held once");
}

struct key {
    std::uint16_t v{};
    std::uint16_t tag{};
    constexpr friend bool operator==(key const &a, key const &b) {
        return a.v == b.v;
    }
};
// keys that compare equal without being identical: the first one stays
VF_HARNESS(equal_not_identical) {
    stdx::cx_set<key, 3> s;
    key a{vf::any<std::uint16_t>(), vf::any<std::uint16_t>()};
    key b{vf::any<std::uint16_t>(), vf::any<std::uint16_t>()};
    s.insert(a);
    bool r = s.insert(b);
    vf_assert(r == (a.v != b.v), "uniqueness is by ==");
    vf_assert(s.begin()->v == a.v and s.begin()->tag == a.tag,
              "a rejected insert does not overwrite");
    vf_assert(s.size() == (a.v != b.v ? 2u : 1u), "size");
    vf_reach("keys");
}
