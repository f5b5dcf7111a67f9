// cx_multimap: a finite map from key to a set of values.
#include "vf.hpp"

#include <stdx/cx_multimap.hpp>

#include <utility>

using K = std::uint8_t;
using V = std::uint8_t;

// relation model: KN key slots, each with VN value slots
template <std::size_t KN, std::size_t VN> struct model {
    K k[KN]{};
    bool live[KN]{};
    V v[KN][VN]{};
    bool vlive[KN][VN]{};

    [[nodiscard]] bool has(K x) const {
        bool r = false;
        for (std::size_t i = 0; i < KN; ++i) {
            r = r or (live[i] and k[i] == x);
        }
        return r;
    }
    [[nodiscard]] bool has(K x, V y) const {
        bool r = false;
        for (std::size_t i = 0; i < KN; ++i) {
            for (std::size_t j = 0; j < VN; ++j) {
                r = r or (live[i] and k[i] == x and vlive[i][j] and
                          v[i][j] == y);
            }
        }
        return r;
    }
    [[nodiscard]] std::size_t count() const {
        std::size_t r = 0;
        for (std::size_t i = 0; i < KN; ++i) {
            r += live[i] ? 1u : 0u;
        }
        return r;
    }
    [[nodiscard]] std::size_t count(K x) const {
        std::size_t r = 0;
        for (std::size_t i = 0; i < KN; ++i) {
            for (std::size_t j = 0; j < VN; ++j) {
                r += (live[i] and k[i] == x and vlive[i][j]) ? 1u : 0u;
            }
        }
        return r;
    }
    void add(K x) {
        bool done = has(x);
        for (std::size_t i = 0; i < KN; ++i) {
            if (not done and not live[i]) {
                live[i] = true;
                k[i] = x;
                for (auto &l : vlive[i]) {
                    l = false;
                }
                done = true;
            }
        }
    }
    void add(K x, V y) {
        add(x);
        bool done = has(x, y);
        for (std::size_t i = 0; i < KN; ++i) {
            for (std::size_t j = 0; j < VN; ++j) {
                if (not done and live[i] and k[i] == x and not vlive[i][j]) {
                    vlive[i][j] = true;
                    v[i][j] = y;
                    done = true;
                }
            }
        }
    }
    void remove(K x) {
        for (std::size_t i = 0; i < KN; ++i) {
            if (k[i] == x) {
                live[i] = false;
            }
        }
    }
    void remove(K x, V y) {
        if (has(x, y)) {
            for (std::size_t i = 0; i < KN; ++i) {
                for (std::size_t j = 0; j < VN; ++j) {
                    if (live[i] and k[i] == x and v[i][j] == y) {
                        vlive[i][j] = false;
                    }
                }
            }
            if (count(x) == 0) {
                remove(x);
            }
        }
    }
};

// number of shapes: n keys, each with 0..VN values
constexpr std::size_t shapes(std::size_t kn, std::size_t vn) {
    std::size_t r = 0;
    std::size_t p = 1;
    for (std::size_t n = 0; n <= kn; ++n) {
        r += p;
        p *= vn + 1;
    }
    return r;
}

template <std::size_t KN, std::size_t VN>
static void make(stdx::cx_multimap<K, V, KN, VN> &s, model<KN, VN> &m,
                 std::size_t &c) {
    // full relation, overwritten through the iterators, then cut back
    for (std::size_t i = 0; i < KN; ++i) {
        for (std::size_t j = 0; j < VN; ++j) {
            s.insert(static_cast<K>(i), static_cast<V>(j));
        }
    }
    auto shape = vf::take(c, shapes(KN, VN));
    std::size_t n = 0;
    for (std::size_t p = 1; shape >= p; p *= VN + 1) {
        shape -= p;
        ++n;
    }
    std::size_t nvs[KN]{};
    for (std::size_t i = 0; i < n; ++i) {
        nvs[i] = vf::take(shape, VN + 1);
    }
    for (std::size_t i = KN; i > n; --i) {
        s.erase(static_cast<K>(i - 1));
    }
    std::size_t i = 0;
    for (auto &[k, set] : s) {
        for (auto &v : set) {
            v = vf::any<V>();
        }
        for (std::size_t j = nvs[i]; j < VN; ++j) {
            static_cast<void>(set.pop_back());
        }
        k = vf::any<K>();
        vf_assume(not m.has(k));
        m.k[i] = k;
        m.live[i] = true;
        std::size_t j = 0;
        for (auto &v : set) {
            vf_assume(not m.has(k, v));
            m.v[i][j] = v;
            m.vlive[i][j] = true;
            ++j;
        }
        ++i;
    }
}

template <std::size_t KN, std::size_t VN>
static void same(stdx::cx_multimap<K, V, KN, VN> &s,
                 model<KN, VN> const &m) {
    auto const &c = s;
    K w = vf::any<K>();
    V y = vf::any<V>();
    vf_assert(c.contains(w) == m.has(w), "contains exactly the keys");
    vf_assert(c.contains(w, y) == m.has(w, y), "contains exactly the pairs");
    vf_assert(c.size() == m.count(), "size is the number of keys");
    vf_assert(c.empty() == (m.count() == 0), "empty iff no keys");
    vf_assert(c.capacity() == KN and
                  stdx::ct_capacity_v<stdx::cx_multimap<K, V, KN, VN>> == KN,
              "capacity is the number of keys");
    if (m.has(w)) {
        vf_assert(c.get(w).size() == m.count(w), "get gives all the values");
        vf_assert(c.get(w).contains(y) == m.has(w, y),
                  "get gives exactly the values");
        vf_assert(&s.get(w) == &c.get(w), "get names one object");
    }
    std::size_t hits = 0;
    std::size_t all = 0;
    for (auto const &[k, v] : c) {
        ++all;
        if (k == w) {
            ++hits;
            vf_assert(&v == &c.get(w), "iteration gives the set of the key");
        }
    }
    vf_assert(all == m.count(), "iteration visits every key");
    vf_assert(hits == (m.has(w) ? 1u : 0u), "iteration visits it once");
    vf_assert(s.begin() == c.begin() and s.end() == c.end() and
                  c.cbegin() == c.begin() and c.cend() == c.end(),
              "iterators agree");
}

template <std::size_t KN, std::size_t VN>
static void ops(std::size_t c) {
    stdx::cx_multimap<K, V, KN, VN> s;
    vf_assert(s.empty() and s.size() == 0, "default constructed is empty");
    model<KN, VN> m;
    make(s, m, c);
    K k = vf::any<K>();
    V v = vf::any<V>();
    switch (c) {
    case 0:
        vf_reach("unchanged");
        break;
    case 1: {
        vf_assume(m.count() < KN or m.has(k));
        vf_assume(m.count(k) < VN or m.has(k, v));
        if (vf::any<bool>()) {
            s.insert(k, v);
        } else {
            s.put(k, v);
        }
        if (m.has(k, v)) {
            vf_reach("insert pair again");
        } else if (m.has(k)) {
            vf_reach("insert value to key");
        } else {
            vf_reach("insert new key and value");
        }
        m.add(k, v);
        break;
    }
    case 2:
        vf_assume(m.count() < KN or m.has(k));
        if (vf::any<bool>()) {
            s.insert(k);
        } else {
            s.put(k);
        }
        m.add(k);
        vf_reach("insert key");
        break;
    case 3: {
        std::size_t r = s.erase(k);
        vf_assert(r == (m.has(k) ? 1u : 0u), "erase(k) returns number removed");
        m.remove(k);
        vf_reach("erase key");
        break;
    }
    case 4: {
        std::size_t r = s.erase(k, v);
        vf_assert(r == (m.has(k, v) ? 1u : 0u),
                  "erase(k, v) returns number removed");
        if (r != 0) {
            if (m.count(k) == 1) {
                vf_reach("erase last value");
            }
        } else if (m.has(k)) {
            vf_reach("erase absent value");
        } else {
            vf_reach("erase value of absent key");
        }
        m.remove(k, v);
        break;
    }
    case 5:
        s.clear();
        for (auto &l : m.live) {
            l = false;
        }
        vf_reach("clear");
        break;
    case 6:
        if (m.count(k) > 0) {
            // key and value are references into the multimap itself
            std::size_t i = vf::below(s.size());
            auto const &e = *(s.begin() + i);
            vf_assume(e.key == k);
            V x = *e.value.begin();
            vf_assert(s.erase(e.key, *e.value.begin()) == 1, "erase own pair");
            m.remove(k, x);
            vf_reach("erase own pair");
        }
        break;
    default:
        if (m.has(k) and m.count(k) < VN) {
            s.get(k).insert(v);
            m.add(k, v);
            vf_reach("insert through get");
        }
        break;
    }
    same(s, m);
}
VF_CASES(ops_1_2, shapes(1, 2) * 8) { ops<1, 2>(vf_case); }
VF_CASES(ops_2_2, shapes(2, 2) * 8) { ops<2, 2>(vf_case); }
VF_CASES(ops_2_1, shapes(2, 1) * 8) { ops<2, 1>(vf_case); }
