// intrusive_forward_list: the sequence given by its history.
#include "list.hpp"

#include <stdx/intrusive_forward_list.hpp>

using checked = stdx::intrusive_forward_list<snode>;
using unchecked =
    stdx::intrusive_forward_list<snode, stdx::node_policy::unchecked>;
// nodes that could be in a two-way list serve as well
using both = stdx::intrusive_forward_list<dnode>;

constexpr std::size_t ENDS = 4;

enum op { PUSH_FRONT, PUSH_BACK, POP_FRONT, CLEAR };

// an operation on a list of m nodes
template <typename L, bool Gaps> static void step(op o, std::size_t m) {
    if (o == POP_FRONT and m == 0) {
        return;
    }
    world<L, Gaps> w;
    w.build(m);
    w.check();
    vf_reach("start");
    using N = typename L::value_type;
    N *const x = w.extra(0);
    if constexpr (std::is_same_v<L, unchecked>) {
        w.scramble(x);
    }
    // some other node that takes no part
    N *const other = w.extra(2);
    w.scramble(other);
    N *const on = other->next;
    if (o != CLEAR) {
        w.hide(m);
    }
    switch (o) {
    case PUSH_FRONT: {
        w.list.push_front(x);
        w.spec_insert(0, MAX);
        break;
    }
    case PUSH_BACK: {
        w.list.push_back(x);
        w.spec_insert(m, MAX);
        break;
    }
    case POP_FRONT: {
        vf_assert(w.list.pop_front() == &w.node[0],
                  "pop_front gives the first element");
        w.spec_erase(0);
        break;
    }
    case CLEAR: {
        w.list.clear();
        w.n = 0;
        break;
    }
    }
    vf_assert(other->next == on, "other nodes keep their links");
    w.go_on();
    vf_reach("done");
}
#define STEP(NAME, OP)                                                         \
    VF_CASES(NAME##_checked, ENDS + 1) { step<checked, false>(OP, vf_case); }  \
    VF_CASES(NAME##_unchecked, ENDS + 1) {                                     \
        step<unchecked, false>(OP, vf_case);                                   \
    }                                                                          \
    VF_CASES(NAME##_both, ENDS + 1) { step<both, false>(OP, vf_case); }        \
    VF_CASES(any_##NAME##_checked, ENDS + 1) {                                 \
        step<checked, true>(OP, vf_case);                                      \
    }                                                                          \
    VF_CASES(any_##NAME##_unchecked, ENDS + 1) {                               \
        step<unchecked, true>(OP, vf_case);                                    \
    }
STEP(push_front, PUSH_FRONT)
STEP(push_back, PUSH_BACK)
STEP(pop_front, POP_FRONT)
VF_CASES(clear_checked, MAX + 1) { step<checked, false>(CLEAR, vf_case); }
VF_CASES(clear_unchecked, MAX + 1) { step<unchecked, false>(CLEAR, vf_case); }
