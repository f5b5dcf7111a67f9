// cx_queue: first in, first out, within its capacity.
//
// Pre-state: any rotation of the ring (produced by pushing and popping), any
// leftovers in the dead slots, any fill level, any contents.
#include "vf.hpp"
#include "vf_panic.hpp"

#include <stdx/cx_queue.hpp>

#include <utility>

using T = std::uint16_t;

static unsigned n_push, n_pop;
static std::size_t seen_size, seen_cap;
struct spy_policy {
    static void check_push(std::size_t size, std::size_t cap) {
        ++n_push;
        seen_size = size;
        seen_cap = cap;
    }
    static void check_pop(std::size_t size) {
        ++n_pop;
        seen_size = size;
    }
};

template <std::size_t N> struct model {
    T a[N + 1]{};
    std::size_t n{};
    void pop() {
        for (std::size_t i = 0; i < N; ++i) {
            a[i] = a[i + 1];
        }
        --n;
    }
};

template <typename Q, std::size_t N>
static void make(Q &q, model<N> &m, std::size_t r, std::size_t n) {
    for (std::size_t i = 0; i < N; ++i) {
        q.push(vf::any<T>());
        static_cast<void>(q.pop());
    }
    for (std::size_t i = 0; i < N; ++i) {
        if (i < r) {
            q.push(vf::any<T>());
            static_cast<void>(q.pop());
        }
    }
    m.n = n;
    for (std::size_t i = 0; i < N; ++i) {
        if (i < m.n) {
            T x = vf::any<T>();
            m.a[i] = x;
            q.push(x);
        }
    }
}

template <typename Q, std::size_t N> static void same(Q &q, model<N> const &m) {
    auto const &c = q;
    vf_assert(c.size() == m.n, "size is the number of live elements");
    vf_assert(c.empty() == (m.n == 0), "empty iff no elements");
    vf_assert(c.full() == (m.n == N), "full iff size equals capacity");
    vf_assert(c.capacity() == N and stdx::ct_capacity_v<Q> == N,
              "capacity is N");
    if (m.n > 0) {
        vf_assert(c.front() == m.a[0], "front is the oldest element");
        vf_assert(&q.front() == &c.front(), "front names one object");
        vf_assert(c.back() == m.a[m.n - 1], "back is the newest element");
        vf_assert(&q.back() == &c.back(), "back names one object");
    }
}
template <typename Q, std::size_t N> static void drain(Q &q, model<N> &m) {
    for (std::size_t i = 0; i < N; ++i) {
        if (m.n > 0) {
            T x = q.pop();
            vf_assert(x == m.a[0], "elements come out in the order pushed");
            m.pop();
            vf_assert(q.size() == m.n, "size while draining");
        }
    }
    vf_assert(q.empty(), "drained");
}

template <typename Q, std::size_t N>
static void one_op(std::size_t rot, std::size_t n, std::size_t op) {
    Q q;
    model<N> m;
    vf_assert(q.empty() and q.size() == 0, "default constructed is empty");
    make(q, m, rot, n);
    same(q, m);
    switch (op) {
    case 0:
        if (m.n < N) {
            T x = vf::any<T>();
            T &r = q.push(x);
            m.a[m.n++] = x;
            same(q, m);
            vf_assert(&r == &q.back(), "push returns the new element");
            T y = vf::any<T>();
            r = y;
            m.a[m.n - 1] = y;
            vf_reach("push");
        }
        break;
    case 1:
        if (m.n < N) {
            T x = vf::any<T>();
            T y = x;
            T &r = q.push(std::move(y));
            m.a[m.n++] = x;
            vf_assert(&r == &q.back(), "push(&&) returns the new element");
            vf_reach("push rvalue");
        }
        break;
    case 2:
        if (m.n > 0) {
            T x = q.pop();
            vf_assert(x == m.a[0], "pop returns the oldest element");
            m.pop();
            vf_reach("pop");
        }
        break;
    case 3:
        q.clear();
        m.n = 0;
        vf_reach("clear");
        break;
    case 4:
        if (m.n > 0) {
            T x = vf::any<T>();
            q.front() = x;
            m.a[0] = x;
            vf_reach("write front");
        }
        break;
    default:
        if (m.n > 0) {
            T x = vf::any<T>();
            q.back() = x;
            m.a[m.n - 1] = x;
            vf_reach("write back");
        }
        break;
    }
    same(q, m);
    auto copy = q;
    if (vf::any<bool>()) {
        // refill to the brim, then everything must come out in order
        for (std::size_t i = 0; i < N; ++i) {
            if (m.n < N) {
                T x = vf::any<T>();
                q.push(x);
                m.a[m.n++] = x;
            }
        }
        vf_assert(q.full(), "refilled queue is full");
        drain(q, m);
        vf_reach("refill");
    } else {
        drain(copy, m);
        vf_reach("drain copy");
    }
}

template <typename Q, std::size_t N> static void one_op() {
    std::size_t r = vf::below(N);
    std::size_t n = vf::upto(N);
    std::size_t op = vf::below(6);
    one_op<Q, N>(r, n, op);
}

#ifndef VF_INV
#define INST(N)                                                                \
    VF_HARNESS(unsafe_##N) {                                                   \
        one_op<stdx::cx_queue<T, N, stdx::unsafe_overflow_policy>, N>();       \
    }                                                                          \
    VF_HARNESS(safe_##N) { one_op<stdx::cx_queue<T, N>, N>(); }
INST(1)
INST(2)
INST(3)
INST(4)
INST(5)

template <std::size_t N> static void panics() {
    stdx::cx_queue<T, N> q;
    model<N> m;
    std::size_t rot = vf::below(N);
    std::size_t fill = vf::upto(N);
    make(q, m, rot, fill);
    auto const &c = q;
    vf_assert(vf_panics == 0, "no panic while within capacity");
    std::size_t op = vf::below(7);
    if (op <= 1) {
        vf_expect_panic = m.n == N;
    } else {
        vf_expect_panic = m.n == 0;
    }
    if (vf_expect_panic) {
        vf_reach("about to panic");
    } else {
        vf_reach("must not panic");
    }
    T x = vf::any<T>();
    switch (op) {
    case 0: q.push(x); break;
    case 1: q.push(std::move(x)); break;
    case 2: static_cast<void>(q.pop()); break;
    case 3: static_cast<void>(q.front()); break;
    case 4: static_cast<void>(c.front()); break;
    case 5: static_cast<void>(q.back()); break;
    default: static_cast<void>(c.back()); break;
    }
    vf_assert(not vf_expect_panic,
              "overflow and underflow panic with the safe policy");
}
VF_HARNESS(panics_1) { panics<1>(); }
VF_HARNESS(panics_3) { panics<3>(); }
VF_HARNESS(panics_5) { panics<5>(); }

VF_HARNESS(policy) {
    using Q = stdx::cx_queue<T, 3, spy_policy>;
    Q q;
    model<3> m;
    std::size_t rot = vf::below(3);
    std::size_t fill = vf::upto(3);
    make(q, m, rot, fill);
    auto const &c = q;
    n_push = n_pop = 0;
    seen_size = seen_cap = 99;
    std::size_t op = vf::below(9);
    T x = vf::any<T>();
    if (op <= 1) {
        vf_assume(m.n < 3);
    } else if (op <= 6) {
        vf_assume(m.n > 0);
    }
    switch (op) {
    case 0: q.push(x); break;
    case 1: q.push(std::move(x)); break;
    case 2: static_cast<void>(q.pop()); break;
    case 3: static_cast<void>(q.front()); break;
    case 4: static_cast<void>(c.front()); break;
    case 5: static_cast<void>(q.back()); break;
    case 6: static_cast<void>(c.back()); break;
    case 7: q.clear(); break;
    default:
        static_cast<void>(q.size());
        static_cast<void>(q.empty());
        static_cast<void>(q.full());
        break;
    }
    if (op <= 1) {
        vf_assert(n_push == 1 and n_pop == 0, "push consults the policy once");
        vf_assert(seen_size == m.n and seen_cap == 3,
                  "push passes size and capacity");
        vf_reach("push policy");
    } else if (op <= 6) {
        vf_assert(n_push == 0 and n_pop == 1,
                  "pop/front/back consult the policy once");
        vf_assert(seen_size == m.n, "pop/front/back pass the size");
        vf_reach("pop policy");
    } else {
        vf_assert(n_push == 0 and n_pop == 0,
                  "clear and queries do not consult the policy");
        vf_reach("no policy");
    }
}

struct tok {
    std::uint32_t v{};
    constexpr tok() = default;
    constexpr explicit tok(std::uint32_t x) : v{x} {}
    tok(tok const &) = default;
    tok &operator=(tok const &) = default;
    tok(tok &&o) noexcept : v{o.v} { o.v = 0xdead; }
    tok &operator=(tok &&o) noexcept {
        v = o.v;
        if (&o != this) {
            o.v = 0xdead;
        }
        return *this;
    }
};
VF_HARNESS(moves) {
    stdx::cx_queue<tok, 2> q;
    std::uint32_t x = vf::any<std::uint32_t>();
    std::uint32_t y = vf::any<std::uint32_t>();
    std::uint32_t z = vf::any<std::uint32_t>();
    vf_assume(x != 0xdead and y != 0xdead and z != 0xdead);
    tok a{x};
    q.push(a);
    vf_assert(a.v == x, "push of an lvalue does not change it");
    tok b{y};
    q.push(std::move(b));
    vf_assert(b.v == 0xdead, "push of an rvalue moves");
    vf_assert(q.pop().v == x, "first out");
    q.push(tok{z});
    vf_assert(q.front().v == y and q.back().v == z, "front and back");
    vf_assert(q.pop().v == y, "second out");
    vf_assert(q.pop().v == z, "third out");
    vf_assert(q.empty(), "empty again");
    vf_reach("moves");
}
#else
// Representation invariant: with it the canonical pre-states above are all
// reachable states, and every operation preserves it.
template <typename Q, std::size_t N> static void inv(Q &q) {
    vf_assert(q.push_index < N, "inv: push index in range");
    vf_assert(q.pop_index < N, "inv: pop index in range");
    vf_assert(q.current_size <= N, "inv: size within capacity");
    vf_assert((q.pop_index + q.current_size + N - 1) % N == q.push_index,
              "inv: push index is pop index + size - 1");
}
template <std::size_t N> static void inductive() {
    using Q = stdx::cx_queue<T, N, stdx::unsafe_overflow_policy>;
    Q q;
    inv<Q, N>(q);
    q.pop_index = vf::below(N);
    q.push_index = vf::below(N);
    q.current_size = vf::upto(N);
    vf_assume((q.pop_index + q.current_size + N - 1) % N == q.push_index);
    switch (vf::below(3)) {
    case 0:
        vf_assume(not q.full());
        q.push(vf::any<T>());
        vf_reach("push");
        break;
    case 1:
        vf_assume(not q.empty());
        static_cast<void>(q.pop());
        vf_reach("pop");
        break;
    default: q.clear(); break;
    }
    inv<Q, N>(q);
}
VF_HARNESS(inductive_1) { inductive<1>(); }
VF_HARNESS(inductive_3) { inductive<3>(); }
VF_HARNESS(inductive_8) { inductive<8>(); }
#endif
