#pragma once
// Lists of any length.
//
// A list is built from M nodes by push_back.  Between two of them may lie a gap
// standing for any number of further nodes: the links into the gap are
// addresses that must not be followed, so an operation that is accepted
// touches nothing in there, and its effect on the nodes that are visible is its
// effect on the whole list.  Gaps are allowed wherever no node next to the ends
// or next to the place of the operation disappears in one, so every list of
// any length is covered by some choice of gaps.  Without gaps the lists are
// complete, and traversed as a whole.
#include "vf.hpp"
#include "vf_panic.hpp"

using u32 = std::uint32_t;

struct dnode {
    u32 value;
    dnode *prev;
    dnode *next;
};
struct snode {
    u32 value;
    snode *next;
};
template <typename N> constexpr bool has_prev = false;
template <> constexpr bool has_prev<dnode> = true;
template <typename L>
constexpr bool two_way = requires(L &l) { l.pop_back(); };

constexpr std::size_t MAX = 7;
constexpr std::size_t XS = 3; // nodes that are not in the list at first

template <typename L, bool Gaps> struct world {
    using N = typename L::value_type;
    N node[MAX + XS];
    u32 payload[MAX + XS];
    // the expected sequence, as node numbers, and whether a gap follows
    std::size_t seq[MAX + XS];
    bool gap[MAX + XS];
    std::size_t n{};
    L list{};

    static N *hidden(std::size_t i, bool back) {
        return reinterpret_cast<N *>(0x10000 * (i + 1) + (back ? 0x8000 : 0));
    }

    world() {
        vf::each<MAX + XS>([&](std::size_t i) {
            payload[i] = vf::any<u32>();
            node[i].value = payload[i];
            node[i].next = nullptr;
            if constexpr (has_prev<N>) {
                node[i].prev = nullptr;
            }
            gap[i] = false;
            seq[i] = 0;
        });
    }
    N *extra(std::size_t k) { return &node[MAX + k]; }
    // any link contents
    void scramble(N *x) {
        x->next = any_link();
        if constexpr (has_prev<N>) {
            x->prev = any_link();
        }
    }
    N *any_link() {
        std::size_t const c = vf::upto(MAX + XS + 1);
        return c == 0 ? nullptr
               : c <= MAX + XS ? &node[c - 1]
                               : hidden(20, false);
    }
    // a list of m nodes
    void build(std::size_t m) {
        vf::each<MAX>([&](std::size_t i) {
            if (i < m) {
                list.push_back(&node[i]);
                seq[i] = i;
            }
        });
        n = m;
    }
    // puts gaps where they hide no neighbour of the ends or of place k
    void hide(std::size_t k) {
        if constexpr (Gaps) {
            vf::each<MAX>([&](std::size_t i) {
                if (i >= 1 and i + 3 <= n) {
                    bool const g = vf::any<bool>();
                    // places k - 1, k and k + 1 stay linked to each other, and
                    // so do the first two and the last two
                    if (g and i + 1 != k and i != k) {
                        gap[i] = true;
                        node[i].next = hidden(i, false);
                        if constexpr (two_way<L>) {
                            node[i + 1].prev = hidden(i, true);
                        }
                    }
                }
            });
        }
    }
    // ---- expected sequence
    void spec_insert(std::size_t k, std::size_t x) {
        vf::each<MAX + XS>([&](std::size_t j) {
            std::size_t const i = MAX + XS - 1 - j;
            if (i > k and i <= n) {
                seq[i] = seq[i - 1];
                gap[i] = gap[i - 1];
            }
        });
        seq[k] = x;
        gap[k] = false;
        ++n;
    }
    void spec_erase(std::size_t k) {
        vf::each<MAX + XS - 1>([&](std::size_t i) {
            if (i >= k and i + 1 < n) {
                seq[i] = seq[i + 1];
                gap[i] = gap[i + 1];
            }
        });
        --n;
    }

    // ---- the list is the expected sequence
    void check() {
        L const &c = list;
        vf_assert(list.empty() == (n == 0), "empty iff there is no element");
        vf_assert((list.begin() == list.end()) == (n == 0) and
                      (c.begin() == c.end()) == (n == 0) and
                      (c.cbegin() == c.cend()) == (n == 0),
                  "begin is end iff there is no element");
        if (n > 0) {
            vf_assert(&list.front() == &node[seq[0]] and
                          list.begin().operator->() == &node[seq[0]] and
                          &*list.begin() == &node[seq[0]] and
                          c.begin().operator->() == &node[seq[0]] and
                          c.cbegin().operator->() == &node[seq[0]],
                      "front is the first element");
            vf_assert(&list.back() == &node[seq[n - 1]],
                      "back is the last element");
        }
        bool fwd = true;
        bool bwd = true;
        vf::each<MAX + XS>([&](std::size_t i) {
            if (i < n) {
                N *const want = i + 1 == n ? nullptr
                                : gap[i]   ? hidden_after(i)
                                           : &node[seq[i + 1]];
                fwd = fwd and node[seq[i]].next == want;
                if constexpr (two_way<L>) {
                    N *const back = i == 0         ? nullptr
                                    : gap[i - 1] ? hidden_before(i)
                                                 : &node[seq[i - 1]];
                    bwd = bwd and node[seq[i]].prev == back;
                }
            }
        });
        vf_assert(fwd, "forward links give the sequence");
        if constexpr (two_way<L>) {
            vf_assert(bwd, "back links mirror the forward links");
        }
        bool same = true;
        vf::each<MAX + XS>([&](std::size_t i) {
            same = same and node[i].value == payload[i];
        });
        vf_assert(same, "no payload changes");
    }
    N *hidden_after(std::size_t i) { return hidden(seq[i], false); }
    N *hidden_before(std::size_t i) { return hidden(seq[i - 1], true); }

    // walks a complete list
    void walk() {
        if constexpr (not Gaps) {
            std::size_t i = 0;
            bool ok = true;
            for (auto &x : list) {
                ok = ok and i < n and &x == &node[seq[i < n ? i : 0]];
                ++i;
            }
            vf_assert(ok and i == n, "traversal yields the sequence");
            L const &c = list;
            auto it = c.begin();
            std::size_t k = 0;
            while (it != c.end() and k <= n) {
                auto const was = it++;
                ok = ok and k < n and was->value == payload[seq[k < n ? k : 0]];
                ++k;
            }
            vf_assert(ok and k == n, "so does traversal of a constant list");
        }
    }
    // node x is not in the list and was not touched
    void untouched(std::size_t x, N *next, N *prev) {
        vf_assert(node[x].next == next, "other nodes keep their links");
        if constexpr (two_way<L>) {
            vf_assert(node[x].prev == prev, "other nodes keep their links back");
        }
    }
    // the list goes on working: what is not visible above is right, too
    void go_on() {
        check();
        N *const a = extra(1);
        a->next = nullptr;
        if constexpr (has_prev<N>) {
            a->prev = nullptr;
        }
        N *const b = extra(2);
        b->next = nullptr;
        if constexpr (has_prev<N>) {
            b->prev = nullptr;
        }
        list.push_back(a);
        spec_insert(n, MAX + 1);
        check();
        list.push_front(b);
        spec_insert(0, MAX + 2);
        check();
        walk();
    }
};
