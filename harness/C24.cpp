// transform_reduce over ranges of any length.
#include "seq.hpp"

#include <stdx/numeric.hpp>

namespace {
// the transformed elements at offset k, and the accumulation of the first k
struct image {
    pos k;
};
struct sum {
    pos k;
    pos seed;
    sum(pos x, pos y) : k{x}, seed{y} {}
    sum(sum const &) = delete;
    sum &operator=(sum const &) = delete;
    sum(sum &&o) : k{o.k}, seed{o.seed} { o.k = -1; }
    sum &operator=(sum &&o) {
        k = o.k;
        seed = o.seed;
        o.k = -1;
        return *this;
    }
};
struct world {
    range a{};
    range b{};
    range c{};
    pos n{};
    pos transformed{};
    pos reduced{};
    pos seed{};

    explicit world(pos count) {
        pos const s = start();
        pos const t = start();
        pos const u = start();
        seed = vf::any<pos>();
        n = count;
        a = {s, s + n};
        b = {t, t + n};
        c = {u, u + n};
    }
    void check(elem<0> x) const {
        vf_assert(transformed < n, "not transformed more often");
        vf_assert(x.at == a.from + transformed, "the next element");
    }
    void check(elem<0> x, elem<1> y) const {
        check(x);
        vf_assert(y.at == b.from + transformed,
                  "the corresponding second element");
    }
    void check(elem<0> x, elem<1> y, elem<2> z) const {
        check(x, y);
        vf_assert(z.at == c.from + transformed,
                  "the corresponding third element");
    }
    template <typename... Es> void check(Es...) const {
        vf_assert(false, "one element of each range, in order");
    }
    template <typename Cat> iter<0, Cat> i() const { return {a.from, &a}; }
    template <typename Cat> iter<0, Cat> e() const { return {a.to, &a}; }
    template <typename Cat> iter<1, Cat> j() const { return {b.from, &b}; }
    template <typename Cat> iter<2, Cat> l() const { return {c.from, &c}; }
    sum init() const { return {0, seed}; }
    void done(sum const &s) const {
        vf_assert(transformed == n and reduced == n,
                  "every element is transformed and combined");
        vf_assert(s.k == n and s.seed == seed,
                  "the accumulation of all of them");
    }
};
struct top {
    world *w;
    template <typename... Es> image operator()(Es... es) const {
        w->check(es...);
        return {w->transformed++};
    }
};
struct rop {
    world *w;
    sum operator()(sum s, image x) const {
        vf_assert(s.k == w->reduced and s.seed == w->seed,
                  "what was accumulated so far");
        vf_assert(x.k == w->reduced, "with the next transformed element");
        ++w->reduced;
        return {s.k + 1, s.seed};
    }
    template <typename X, typename Y> sum operator()(X, Y) const {
        vf_assert(false, "the accumulation first, then the element");
        return {-1, w->seed};
    }
};
template <typename Cat> void all_1() {
    world w{length()};
    w.done(stdx::transform_reduce(w.i<Cat>(), w.e<Cat>(), w.init(), rop{&w},
                                  top{&w}));
    vf_reach("transform_reduce");
}
template <typename Cat> void all_2() {
    world w{length()};
    w.done(stdx::transform_reduce(w.i<Cat>(), w.e<Cat>(), w.init(), rop{&w},
                                  top{&w}, w.j<Cat>()));
    vf_reach("transform_reduce");
}
template <typename Cat> void all_3() {
    world w{length()};
    w.done(stdx::transform_reduce(w.i<Cat>(), w.e<Cat>(), w.init(), rop{&w},
                                  top{&w}, w.j<Cat>(), w.l<Cat>()));
    vf_reach("transform_reduce");
}
template <typename Size, typename Cat> void n_1() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    w.done(
        stdx::transform_reduce_n(w.i<Cat>(), n, w.init(), rop{&w}, top{&w}));
    vf_reach("transform_reduce_n");
}
template <typename Size, typename Cat> void n_2() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    w.done(stdx::transform_reduce_n(w.i<Cat>(), n, w.init(), rop{&w}, top{&w},
                                    w.j<Cat>()));
    vf_reach("transform_reduce_n");
}
template <typename Size, typename Cat> void n_3() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    w.done(stdx::transform_reduce_n(w.i<Cat>(), n, w.init(), rop{&w}, top{&w},
                                    w.j<Cat>(), w.l<Cat>()));
    vf_reach("transform_reduce_n");
}
} // namespace

VF_HARNESS(all_fwd) { all_1<fwd>(); }
VF_HARNESS(all_rnd) { all_1<rnd>(); }
VF_HARNESS(all_inp) { all_1<inp>(); }
VF_HARNESS(all_2_fwd) { all_2<fwd>(); }
VF_HARNESS(all_2_rnd) { all_2<rnd>(); }
VF_HARNESS(all_3_fwd) { all_3<fwd>(); }
VF_HARNESS(all_3_rnd) { all_3<rnd>(); }
VF_HARNESS(n_int) { n_1<int, fwd>(); }
VF_HARNESS(n_long) { n_1<pos, rnd>(); }
VF_HARNESS(n_unsigned) { n_1<unsigned, fwd>(); }
VF_HARNESS(n_size) { n_1<std::size_t, rnd>(); }
VF_HARNESS(n_byte) { n_1<std::uint8_t, fwd>(); }
VF_HARNESS(n_2) { n_2<std::size_t, fwd>(); }
VF_HARNESS(n_2_rnd) { n_2<int, rnd>(); }
VF_HARNESS(n_3) { n_3<int, fwd>(); }
VF_HARNESS(n_3_rnd) { n_3<std::size_t, rnd>(); }
