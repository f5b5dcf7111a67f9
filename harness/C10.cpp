// cx_map: a finite map.
//
// Pre-state: any key-value pairs in any storage order, any leftovers in the
// unused part.
#include "vf.hpp"

#include <stdx/cx_map.hpp>

#include <type_traits>
#include <utility>

using K = std::uint8_t;
using V = std::uint16_t;

template <std::size_t N> struct model {
    K k[N]{};
    V v[N]{};
    bool live[N]{};
    [[nodiscard]] bool has(K x) const {
        bool r = false;
        for (std::size_t i = 0; i < N; ++i) {
            r = r or (live[i] and k[i] == x);
        }
        return r;
    }
    [[nodiscard]] V at(K x) const {
        V r = 0;
        for (std::size_t i = 0; i < N; ++i) {
            if (live[i] and k[i] == x) {
                r = v[i];
            }
        }
        return r;
    }
    [[nodiscard]] std::size_t count() const {
        std::size_t r = 0;
        for (std::size_t i = 0; i < N; ++i) {
            r += live[i] ? 1u : 0u;
        }
        return r;
    }
    void remove(K x) {
        for (std::size_t i = 0; i < N; ++i) {
            if (k[i] == x) {
                live[i] = false;
            }
        }
    }
    void put(K x, V y) {
        bool done = false;
        for (std::size_t i = 0; i < N; ++i) {
            if (live[i] and k[i] == x) {
                v[i] = y;
                done = true;
            }
        }
        for (std::size_t i = 0; i < N; ++i) {
            if (not done and not live[i]) {
                live[i] = true;
                k[i] = x;
                v[i] = y;
                done = true;
            }
        }
    }
};

template <std::size_t N>
static void make(stdx::cx_map<K, V, N> &s, model<N> &m, std::size_t n) {
    // N pairs, then overwritten through the iterators, then N - n popped
    for (std::size_t i = 0; i < N; ++i) {
        s.insert_or_assign(static_cast<K>(i), V{});
    }
    for (auto &[k, v] : s) {
        k = vf::any<K>();
        v = vf::any<V>();
    }
    for (std::size_t i = n; i < N; ++i) {
        static_cast<void>(s.pop_back());
    }
    std::size_t i = 0;
    for (auto &[k, v] : s) {
        vf_assume(not m.has(k));
        m.k[i] = k;
        m.v[i] = v;
        m.live[i] = true;
        ++i;
    }
}

template <std::size_t N>
static void same(stdx::cx_map<K, V, N> &s, model<N> const &m) {
    auto const &c = s;
    K w = vf::any<K>(); // every key
    vf_assert(c.contains(w) == m.has(w), "contains exactly the keys");
    vf_assert(c.size() == m.count(), "size is the number of keys");
    vf_assert(c.empty() == (m.count() == 0), "empty iff no keys");
    vf_assert(c.full() == (m.count() == N), "full iff at capacity");
    vf_assert(c.capacity() == N and
                  stdx::ct_capacity_v<stdx::cx_map<K, V, N>> == N,
              "capacity is N");
    if (m.has(w)) {
        vf_assert(c.get(w) == m.at(w), "get gives the value of the key");
        vf_assert(&s.get(w) == &c.get(w), "get names one object");
    }
    std::size_t hits = 0;
    std::size_t all = 0;
    for (auto const &[k, v] : c) {
        ++all;
        if (k == w) {
            ++hits;
            vf_assert(v == m.at(w), "iteration gives the value of the key");
        }
    }
    vf_assert(all == m.count(), "iteration visits every pair");
    vf_assert(hits == (m.has(w) ? 1u : 0u), "iteration visits it once");
    vf_assert(s.begin() == c.begin() and s.end() == c.end() and
                  c.cbegin() == c.begin() and c.cend() == c.end(),
              "iterators agree");
}

template <std::size_t N> static void ops(std::size_t n, std::size_t op) {
    stdx::cx_map<K, V, N> s;
    vf_assert(s.empty() and s.size() == 0, "default constructed is empty");
    model<N> m;
    make(s, m, n);
    same(s, m);
    K k = vf::any<K>();
    V v = vf::any<V>();
    switch (op) {
    case 0: {
        vf_assume(m.count() < N or m.has(k));
        bool r = s.insert_or_assign(k, v);
        vf_assert(r == not m.has(k), "insert_or_assign says if it is new");
        if (r) {
            vf_reach("insert");
        } else {
            vf_reach("assign");
        }
        m.put(k, v);
        break;
    }
    case 1: {
        vf_assume(m.count() < N or m.has(k));
        bool r = s.put(k, v);
        vf_assert(r == not m.has(k), "put says if it is new");
        m.put(k, v);
        vf_reach("put");
        break;
    }
    case 2: {
        std::size_t r = s.erase(k);
        vf_assert(r == (m.has(k) ? 1u : 0u), "erase returns number removed");
        if (r != 0) {
            vf_reach("erased");
        } else {
            vf_reach("erase absent");
        }
        m.remove(k);
        break;
    }
    case 3:
        s.clear();
        for (auto &l : m.live) {
            l = false;
        }
        vf_reach("clear");
        break;
    case 4:
        if (m.count() > 0) {
            auto x = s.pop_back();
            vf_assert(m.has(x.key) and m.at(x.key) == x.value,
                      "pop_back returns a pair of the map");
            m.remove(x.key);
            vf_reach("pop_back");
        }
        break;
    case 5:
        if (m.has(k)) {
            s.get(k) = v;
            m.put(k, v);
            vf_reach("write through get");
        }
        break;
    default:
        if (m.count() > 0) {
            // the key is a reference into the map itself
            std::size_t i = vf::below(s.size());
            K x = (s.begin() + i)->key;
            if (vf::any<bool>()) {
                vf_assert(s.erase((s.begin() + i)->key) == 1,
                          "erase by own key");
                m.remove(x);
                vf_reach("erase by own key");
            } else {
                std::size_t j = vf::below(s.size());
                V y = (s.begin() + j)->value;
                vf_assert(not s.insert_or_assign((s.begin() + i)->key,
                                                 (s.begin() + j)->value),
                          "assign from own pair");
                m.put(x, y);
                vf_reach("assign from own pair");
            }
        }
        break;
    }
    same(s, m);
}
#define INST(N)                                                                \
    VF_CASES(ops_##N, (N + 1) * 7) {                                           \
        auto const n = vf::take(vf_case, N + 1);                               \
        ops<N>(n, vf_case);                                                    \
    }
INST(1)
INST(2)
INST(3)
INST(4)

VF_HARNESS(construct) {
    K a = vf::any<K>();
    K b = vf::any<K>();
    V x = vf::any<V>();
    V y = vf::any<V>();
    vf_assume(a != b);
    stdx::cx_map<K, V, 3> s{stdx::cx_map_value{a, x}, stdx::cx_map_value{b, y}};
    model<3> m;
    m.put(a, x);
    m.put(b, y);
    same(s, m);
    auto t = s;
    vf_assert(t.erase(a) == 1, "erase from the copy");
    same(s, m);
    m.remove(a);
    same(t, m);
    vf_reach("construct");
}

VF_HARNESS(construct_repeated) {
    K a = vf::any<K>();
    V x = vf::any<V>();
    V y = vf::any<V>();
    stdx::cx_map<K, V, 2> s{stdx::cx_map_value{a, x}, stdx::cx_map_value{a, y}};
    vf_reach("construct repeated");
    vf_assert(s.size() == 1, "repeated keys are held once");
}

struct key {
    std::uint16_t v{};
    std::uint16_t tag{};
    constexpr friend bool operator==(key const &a, key const &b) {
        return a.v == b.v;
    }
};
VF_HARNESS(equal_not_identical) {
    stdx::cx_map<key, V, 3> s;
    key a{vf::any<std::uint16_t>(), vf::any<std::uint16_t>()};
    key b{vf::any<std::uint16_t>(), vf::any<std::uint16_t>()};
    V x = vf::any<V>();
    V y = vf::any<V>();
    s.insert_or_assign(a, x);
    bool r = s.insert_or_assign(b, y);
    vf_assert(r == (a.v != b.v), "keys are compared with ==");
    vf_assert(s.get(b) == y, "new value");
    vf_assert(s.get(a) == (a.v == b.v ? y : x), "old value");
    vf_assert(s.size() == (a.v != b.v ? 2u : 1u), "size");
    vf_reach("keys");
}
