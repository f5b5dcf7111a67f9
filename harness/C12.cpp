// intrusive_list: the sequence given by its history.
#include "list.hpp"

#include <stdx/intrusive_list.hpp>

using checked = stdx::intrusive_list<dnode>;
using unchecked = stdx::intrusive_list<dnode, stdx::node_policy::unchecked>;

// An operation at the ends may look at the first two and the last two nodes, so
// four with a gap in the middle stand for any longer list; one in the middle may
// look at its neighbours, too, so three on either side do.
constexpr std::size_t ENDS = 4;
constexpr std::size_t SIDE = 3;

enum op { PUSH_FRONT, PUSH_BACK, INSERT, POP_FRONT, POP_BACK, REMOVE, CLEAR };
constexpr std::size_t OPS = 7;

// an operation on a list of m nodes
template <typename L, bool Gaps> static void step(op o, std::size_t m, std::size_t k) {
    world<L, Gaps> w;
    w.build(m);
    w.check();
    vf_reach("start");
    constexpr bool resets = std::is_same_v<L, checked>;
    dnode *const x = w.extra(0);
    if constexpr (not resets) {
        w.scramble(x);
    }
    // some other node that takes no part
    dnode *const other = w.extra(2);
    w.scramble(other);
    dnode *const on = other->next;
    dnode *const op = other->prev;
    auto it = w.list.begin();
    vf::each<MAX>([&](std::size_t i) {
        if (i < k and o == INSERT and i < m) {
            ++it;
        }
    });
    if (o != CLEAR) {
        w.hide(k);
    }
    switch (o) {
    case PUSH_FRONT: {
        w.list.push_front(x);
        w.spec_insert(0, MAX);
        break;
    }
    case PUSH_BACK: {
        w.list.push_back(x);
        w.spec_insert(m, MAX);
        break;
    }
    case INSERT: {
        w.list.insert(it, x);
        w.spec_insert(k, MAX);
        break;
    }
    case POP_FRONT: {
        vf_assert(w.list.pop_front() == &w.node[0],
                  "pop_front gives the first element");
        w.spec_erase(0);
        break;
    }
    case POP_BACK: {
        vf_assert(w.list.pop_back() == &w.node[m - 1],
                  "pop_back gives the last element");
        w.spec_erase(m - 1);
        break;
    }
    case REMOVE: {
        w.list.remove(&w.node[k]);
        w.spec_erase(k);
        break;
    }
    case CLEAR: {
        w.list.clear();
        w.n = 0;
        break;
    }
    }
    w.untouched(MAX + 2, on, op);
    w.go_on();
    vf_reach("done");
}
// any number of nodes before and after the place
template <typename L, bool Gaps> static void at_place(op o, std::size_t c) {
    std::size_t const before = vf::take(c, SIDE + 1);
    std::size_t const after = vf::take(c, SIDE + 1);
    step<L, Gaps>(o, before + 1 + after, before);
}
template <typename L, bool Gaps> static void at_end(op o, std::size_t m) {
    if ((o != POP_FRONT and o != POP_BACK) or m > 0) {
        step<L, Gaps>(o, m, m);
    }
}
#define STEP(NAME, OP, HOW, COUNT)                                             \
    VF_CASES(NAME##_checked, COUNT) { HOW<checked, false>(OP, vf_case); }      \
    VF_CASES(NAME##_unchecked, COUNT) { HOW<unchecked, false>(OP, vf_case); }  \
    VF_CASES(any_##NAME##_checked, COUNT) { HOW<checked, true>(OP, vf_case); } \
    VF_CASES(any_##NAME##_unchecked, COUNT) {                                  \
        HOW<unchecked, true>(OP, vf_case);                                     \
    }
STEP(push_front, PUSH_FRONT, at_end, ENDS + 1)
STEP(push_back, PUSH_BACK, at_end, ENDS + 1)
STEP(pop_front, POP_FRONT, at_end, ENDS + 1)
STEP(pop_back, POP_BACK, at_end, ENDS + 1)
STEP(insert_end, INSERT, at_end, ENDS + 1)
STEP(insert, INSERT, at_place, (SIDE + 1) * (SIDE + 1))
STEP(remove, REMOVE, at_place, (SIDE + 1) * (SIDE + 1))
VF_CASES(clear_checked, MAX + 1) { at_end<checked, false>(CLEAR, vf_case); }
VF_CASES(clear_unchecked, MAX + 1) { at_end<unchecked, false>(CLEAR, vf_case); }
