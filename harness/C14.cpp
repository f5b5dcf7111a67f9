// What the node policies check and reset.
#include "list.hpp"

#include <stdx/intrusive_forward_list.hpp>
#include <stdx/intrusive_list.hpp>

using two = stdx::intrusive_list<dnode>;
using two_free = stdx::intrusive_list<dnode, stdx::node_policy::unchecked>;
using one = stdx::intrusive_forward_list<snode>;
using one_free =
    stdx::intrusive_forward_list<snode, stdx::node_policy::unchecked>;
using mixed = stdx::intrusive_forward_list<dnode>;

constexpr std::size_t ENDS = 4;

enum op { PUSH_FRONT, PUSH_BACK, INSERT, INSERT_END };

template <typename N> static bool unlinked(N const *n) {
    if constexpr (has_prev<N>) {
        return n->prev == nullptr and n->next == nullptr;
    } else {
        return n->next == nullptr;
    }
}
// the iterator to the k-th node, found before gaps are put in
template <typename L> static auto place(L &l, op o, std::size_t k) {
    auto it = l.begin();
    vf::each<MAX>([&](std::size_t i) {
        if ((o == INSERT or o == INSERT_END) and i < k) {
            ++it;
        }
    });
    return it;
}
template <typename L> static void put(L &l, op o, auto it, auto *x) {
    if (o == PUSH_FRONT) {
        l.push_front(x);
    } else if (o == PUSH_BACK) {
        l.push_back(x);
    } else {
        if constexpr (two_way<L>) {
            l.insert(it, x);
        }
    }
}

// adding a node with any links to a list of m nodes
template <typename L, bool Gaps>
static void add_checked(op o, std::size_t m, std::size_t k) {
    using N = typename L::value_type;
    world<L, Gaps> w;
    w.build(m);
    N *const x = w.extra(0);
    w.scramble(x);
    bool const fresh = unlinked(x);
    auto const it = place(w.list, o, k);
    w.hide(k);
    vf_expect_panic = not fresh;
    if (fresh) {
        vf_reach("unlinked");
    } else {
        vf_reach("linked");
    }
    put(w.list, o, it, x);
    vf_expect_panic = false;
    vf_assert(fresh, "adding a linked node panics");
    w.spec_insert(k, MAX);
    w.check();
}
template <typename L, bool Gaps>
static void add_unchecked(op o, std::size_t m, std::size_t k) {
    using N = typename L::value_type;
    world<L, Gaps> w;
    w.build(m);
    N *const x = w.extra(0);
    w.scramble(x);
    auto const it = place(w.list, o, k);
    w.hide(k);
    put(w.list, o, it, x);
    vf_assert(vf_panics == 0, "unchecked nodes never panic");
    w.spec_insert(k, MAX);
    w.check();
    vf_reach("added");
}
#define ADD(NAME, L, HOW, OP, AT)                                              \
    VF_CASES(NAME, ENDS + 1) { HOW<L, false>(OP, vf_case, AT); }               \
    VF_CASES(any_##NAME, ENDS + 1) { HOW<L, true>(OP, vf_case, AT); }
#define ENDS_OF(NAME, L, HOW)                                                  \
    ADD(push_front_##NAME, L, HOW, PUSH_FRONT, 0)                              \
    ADD(push_back_##NAME, L, HOW, PUSH_BACK, vf_case)
ENDS_OF(two, two, add_checked)
ENDS_OF(one, one, add_checked)
ENDS_OF(mixed, mixed, add_checked)
ENDS_OF(two_free, two_free, add_unchecked)
ENDS_OF(one_free, one_free, add_unchecked)
ADD(insert_end_two, two, add_checked, INSERT_END, vf_case)
VF_CASES(insert_two, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    add_checked<two, false>(INSERT, k + 1 + c, k);
}
VF_CASES(any_insert_two, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    add_checked<two, true>(INSERT, k + 1 + c, k);
}
VF_CASES(insert_two_free, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    add_unchecked<two_free, false>(INSERT, k + 1 + c, k);
}
VF_CASES(any_insert_two_free, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    add_unchecked<two_free, true>(INSERT, k + 1 + c, k);
}

// a node that leaves a list is unlinked, and can be added again
template <typename L> static void again(typename L::value_type *x) {
    vf_assert(unlinked(x), "a node that leaves is unlinked");
    L other{};
    other.push_back(x);
    vf_assert(&other.front() == x and &other.back() == x,
              "a node that left can be added to another list");
    vf_reach("left");
}
template <typename L, bool Gaps> static void pop_front(std::size_t m) {
    if (m > 0) {
        world<L, Gaps> w;
        w.build(m);
        w.hide(m);
        auto *const x = w.list.pop_front();
        vf_assert(x == &w.node[0], "pop_front gives the first");
        again<L>(x);
    }
}
template <typename L, bool Gaps> static void pop_back(std::size_t m) {
    if (m > 0) {
        world<L, Gaps> w;
        w.build(m);
        w.hide(m);
        auto *const x = w.list.pop_back();
        vf_assert(x == &w.node[m - 1], "pop_back gives the last");
        again<L>(x);
    }
}
template <typename L, bool Gaps> static void remove(std::size_t m, std::size_t k) {
    world<L, Gaps> w;
    w.build(m);
    w.hide(k);
    w.list.remove(&w.node[k]);
    again<L>(&w.node[k]);
}
#define LEAVE(NAME, L, HOW)                                                    \
    VF_CASES(NAME, ENDS + 1) { HOW<L, false>(vf_case); }                       \
    VF_CASES(any_##NAME, ENDS + 1) { HOW<L, true>(vf_case); }
LEAVE(pop_front_two, two, pop_front)
LEAVE(pop_front_one, one, pop_front)
LEAVE(pop_front_mixed, mixed, pop_front)
LEAVE(pop_back_two, two, pop_back)
VF_CASES(remove_two, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    remove<two, false>(k + 1 + c, k);
}
VF_CASES(any_remove_two, ENDS * ENDS) {
    std::size_t c = vf_case;
    std::size_t const k = vf::take(c, ENDS);
    remove<two, true>(k + 1 + c, k);
}
template <typename L> static void clear(std::size_t m) {
    world<L, false> w;
    w.build(m);
    w.list.clear();
    bool all = true;
    vf::each<MAX>([&](std::size_t i) { all = all and unlinked(&w.node[i]); });
    vf_assert(all, "every node of a cleared list is unlinked");
    vf_reach("cleared");
    vf::each<MAX>([&](std::size_t i) {
        if (i < m) {
            w.list.push_front(&w.node[m - 1 - i]);
        }
    });
    w.check();
}
VF_CASES(clear_two, MAX + 1) { clear<two>(vf_case); }
VF_CASES(clear_one, MAX + 1) { clear<one>(vf_case); }
VF_CASES(clear_mixed, MAX + 1) { clear<mixed>(vf_case); }
