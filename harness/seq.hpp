#pragma once
// Ranges of any length: an iterator is a position in a numbered sequence, an
// element is its sequence and position. Ghost state tells what was done so far.
#include "vf.hpp"

#include <cstddef>
#include <cstdint>
#include <iterator>

using pos = std::int64_t;

// a position somewhere, and a length
inline pos start() {
    pos const p = vf::any<pos>();
    vf_assume(p >= 0 and p < (pos{1} << 60));
    return p;
}
template <typename N = pos> inline N length() {
    N const n = vf::any<N>();
    vf_assume(n >= 0);
    if constexpr (sizeof(N) == 8) {
        vf_assume(n < (N{1} << 60));
    }
#ifdef VF_BOUNDED
    vf_assume(n <= VF_BOUNDED);
#endif
    return n;
}

// one numbered sequence: what may be read, and what was
struct range {
    pos from;
    pos to;
};
template <int K> struct elem {
    pos at;
};
template <int K, typename Cat> struct iter {
    using iterator_category = Cat;
    using value_type = elem<K>;
    using difference_type = pos;
    using pointer = void;
    using reference = elem<K>;

    pos at;
    range const *r;

    elem<K> operator*() const {
        vf_assert(at >= r->from and at < r->to, "reads inside the range");
        return {at};
    }
    iter &operator++() {
        ++at;
        return *this;
    }
    iter operator++(int) {
        auto const old = *this;
        ++at;
        return old;
    }
    friend bool operator==(iter const &a, iter const &b) {
        return a.at == b.at;
    }
    friend bool operator!=(iter const &a, iter const &b) {
        return a.at != b.at;
    }
    // only for random access
    iter &operator--() {
        --at;
        return *this;
    }
    iter &operator+=(pos n) {
        at += n;
        return *this;
    }
    iter &operator-=(pos n) {
        at -= n;
        return *this;
    }
    friend iter operator+(iter i, pos n) { return i += n; }
    friend iter operator+(pos n, iter i) { return i += n; }
    friend iter operator-(iter i, pos n) { return i -= n; }
    friend pos operator-(iter const &a, iter const &b) { return a.at - b.at; }
    friend bool operator<(iter const &a, iter const &b) { return a.at < b.at; }
    friend bool operator>(iter const &a, iter const &b) { return a.at > b.at; }
    friend bool operator<=(iter const &a, iter const &b) {
        return a.at <= b.at;
    }
    friend bool operator>=(iter const &a, iter const &b) {
        return a.at >= b.at;
    }
    elem<K> operator[](pos n) const { return *(*this + n); }
};
using fwd = std::forward_iterator_tag;
using rnd = std::random_access_iterator_tag;
using inp = std::input_iterator_tag;
