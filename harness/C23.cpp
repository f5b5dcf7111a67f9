// range algorithms over ranges of any length.
#include "seq.hpp"

#include <stdx/algorithm.hpp>

namespace {
// result number k of the operation
struct token {
    pos k;
};
// what an operation has seen: call k gets the elements at offset k
struct calls {
    range a{};
    range b{};
    range c{};
    pos n{};       // calls to come
    pos k{};       // calls so far
    pos written{}; // results written
    pos out{};     // where results go

    void check(elem<0> x) const {
        vf_assert(k < n, "not called more often");
        vf_assert(x.at == a.from + k, "the next element");
    }
    void check(elem<0> x, elem<1> y) const {
        check(x);
        vf_assert(y.at == b.from + k, "the corresponding second element");
    }
    void check(elem<0> x, elem<1> y, elem<2> z) const {
        check(x, y);
        vf_assert(z.at == c.from + k, "the corresponding third element");
    }
    template <typename... Es> void check(Es...) const {
        vf_assert(false, "one element of each range, in order");
    }
};
struct op {
    calls *log;
    pos mine;

    template <typename... Es> token operator()(Es... es) {
        log->check(es...);
        ++mine;
        return {log->k++};
    }
};
struct sink {
    calls *log;
    pos at;
    sink &operator=(token t) {
        vf_assert(at == log->out + log->written, "written where it belongs");
        vf_assert(t.k == log->written, "the result of the call");
        vf_assert(log->k == log->written + 1, "as soon as it is there");
        ++log->written;
        return *this;
    }
};
struct output {
    calls *log;
    pos at;
    sink operator*() const { return {log, at}; }
    output &operator++() {
        ++at;
        return *this;
    }
    output operator++(int) {
        auto const old = *this;
        ++at;
        return old;
    }
};
// ranges for n calls; each range ends where the calls do
struct world : calls {
    explicit world(pos count) {
        pos const s = start();
        pos const t = start();
        pos const u = start();
        pos const v = start();
        n = count;
        a = {s, s + n};
        b = {t, t + n};
        c = {u, u + n};
        out = v;
    }
    template <typename Cat> iter<0, Cat> i() const { return {a.from, &a}; }
    template <typename Cat> iter<0, Cat> e(pos len) const {
        return {a.from + len, &a};
    }
    template <typename Cat> iter<1, Cat> j() const { return {b.from, &b}; }
    template <typename Cat> iter<2, Cat> l() const { return {c.from, &c}; }
    op f() { return {this, 0}; }
    output o() { return {this, out}; }
    void all_called() const { vf_assert(k == n, "called for every element"); }
    void all_written() const {
        vf_assert(written == n, "every result is written");
    }
};

template <typename Cat> void transforms() {
    world w{length()};
    auto const r = stdx::transform(w.i<Cat>(), w.e<Cat>(w.n), w.o(), w.f());
    w.all_called();
    w.all_written();
    vf_assert(get<0>(r).at == w.out + w.n and get<1>(r).at == w.a.to,
              "the final iterators");
    vf_reach("transform");
}
template <typename Cat> void transforms_2() {
    world w{length()};
    auto const r = stdx::transform(w.i<Cat>(), w.e<Cat>(w.n), w.o(), w.f(),
                                   w.j<Cat>());
    w.all_called();
    w.all_written();
    vf_assert(get<0>(r).at == w.out + w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to,
              "the final iterators");
    vf_reach("transform");
}
template <typename Cat> void transforms_3() {
    world w{length()};
    auto const r = stdx::transform(w.i<Cat>(), w.e<Cat>(w.n), w.o(), w.f(),
                                   w.j<Cat>(), w.l<Cat>());
    w.all_called();
    w.all_written();
    vf_assert(get<0>(r).at == w.out + w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to and get<3>(r).at == w.c.to,
              "the final iterators");
    vf_reach("transform");
}
template <typename Size> void transforms_n() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    auto const r = stdx::transform_n(w.i<fwd>(), n, w.o(), w.f());
    w.all_called();
    w.all_written();
    vf_assert(get<0>(r).at == w.out + w.n and get<1>(r).at == w.a.to,
              "the final iterators");
    vf_reach("transform_n");
}
template <typename Size> void transforms_n_3() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    auto const r = stdx::transform_n(w.i<rnd>(), n, w.o(), w.f(), w.j<fwd>(),
                                     w.l<rnd>());
    w.all_called();
    w.all_written();
    vf_assert(get<0>(r).at == w.out + w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to and get<3>(r).at == w.c.to,
              "the final iterators");
    vf_reach("transform_n");
}
template <typename Cat> void each() {
    world w{length()};
    auto const r = stdx::for_each(w.i<Cat>(), w.e<Cat>(w.n), w.f());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n, "the function with its state");
    vf_reach("for_each");
}
template <typename Cat> void each_2() {
    world w{length()};
    auto const r = stdx::for_each(w.i<Cat>(), w.e<Cat>(w.n), w.f(), w.j<Cat>());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.b.to,
              "the function and the final iterator");
    vf_reach("for_each");
}
template <typename Cat> void each_3() {
    world w{length()};
    auto const r = stdx::for_each(w.i<Cat>(), w.e<Cat>(w.n), w.f(), w.j<Cat>(),
                                  w.l<Cat>());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.b.to and
                  get<2>(r).at == w.c.to,
              "the function and the final iterators");
    vf_reach("for_each");
}
template <typename Size> void each_n() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    auto const r = stdx::for_each_n(w.i<fwd>(), n, w.f());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to,
              "the function and the final iterator");
    vf_reach("for_each_n");
}
template <typename Size> void each_n_3() {
    Size const n = length<Size>();
    world w{static_cast<pos>(n)};
    auto const r =
        stdx::for_each_n(w.i<rnd>(), n, w.f(), w.j<fwd>(), w.l<rnd>());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to and get<3>(r).at == w.c.to,
              "the function and the final iterators");
    vf_reach("for_each_n");
}
// all but the last n of a range of len
template <typename Cat, typename N> void butlastn() {
    pos const len = length();
    N const n = length<N>();
    pos const skip = static_cast<pos>(n);
    world w{skip < len ? len - skip : 0};
    auto const r = stdx::for_each_butlastn(w.i<Cat>(), w.e<Cat>(len), n, w.f());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to,
              "the function and the final iterator");
    if (skip > len) {
        vf_reach("more than there are");
    }
    vf_reach("for_each_butlastn");
}
template <typename Cat> void butlastn_3() {
    pos const len = length();
    int const n = length<int>();
    world w{n < len ? len - n : 0};
    auto const r = stdx::for_each_butlastn(w.i<Cat>(), w.e<Cat>(len), n, w.f(),
                                           w.j<Cat>(), w.l<Cat>());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to and get<3>(r).at == w.c.to,
              "the function and the final iterators");
    vf_reach("for_each_butlastn");
}
template <typename Cat> void butlast() {
    pos const len = length();
    world w{len > 0 ? len - 1 : 0};
    auto const r = stdx::for_each_butlast(w.i<Cat>(), w.e<Cat>(len), w.f());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to,
              "the function and the final iterator");
    vf_reach("for_each_butlast");
}
template <typename Cat> void butlast_2() {
    pos const len = length();
    world w{len > 0 ? len - 1 : 0};
    auto const r =
        stdx::for_each_butlast(w.i<Cat>(), w.e<Cat>(len), w.f(), w.j<Cat>());
    w.all_called();
    vf_assert(get<0>(r).mine == w.n and get<1>(r).at == w.a.to and
                  get<2>(r).at == w.b.to,
              "the function and the final iterators");
    vf_reach("for_each_butlast");
}
// initial, medial and final: one log, told apart by who calls
struct part {
    calls *log;
    int which;
    pos mine;
    void operator()(elem<0> x) {
        log->check(x);
        bool const first = log->k == 0;
        bool const last = log->k == log->n - 1;
        vf_assert(which == 0 ? first
                             : (which == 1 ? not first and not last
                                           : last and not first),
                  "first, middle or last");
        ++log->k;
        ++mine;
    }
};
template <typename Cat> void imf() {
    world w{length()};
    auto const r = stdx::initial_medial_final(
        w.i<Cat>(), w.e<Cat>(w.n), part{&w, 0, 0}, part{&w, 1, 0},
        part{&w, 2, 0});
    w.all_called();
    vf_assert(get<0>(r).which == 0 and get<1>(r).which == 1 and
                  get<2>(r).which == 2 and get<0>(r).mine == (w.n > 0 ? 1 : 0) and
                  get<1>(r).mine == (w.n > 2 ? w.n - 2 : 0) and
                  get<2>(r).mine == (w.n > 1 ? 1 : 0),
              "the functions with their state");
    vf_reach("initial_medial_final");
}
} // namespace

VF_HARNESS(transform_fwd) { transforms<fwd>(); }
VF_HARNESS(transform_rnd) { transforms<rnd>(); }
VF_HARNESS(transform_inp) { transforms<inp>(); }
VF_HARNESS(transform_2) { transforms_2<fwd>(); }
VF_HARNESS(transform_3) { transforms_3<rnd>(); }
VF_HARNESS(transform_n_long) { transforms_n<pos>(); }
VF_HARNESS(transform_n_int) { transforms_n<int>(); }
VF_HARNESS(transform_n_unsigned) { transforms_n<unsigned>(); }
VF_HARNESS(transform_n_size) { transforms_n<std::size_t>(); }
VF_HARNESS(transform_n_3) { transforms_n_3<std::size_t>(); }
VF_HARNESS(for_each_fwd) { each<fwd>(); }
VF_HARNESS(for_each_rnd) { each<rnd>(); }
VF_HARNESS(for_each_inp) { each<inp>(); }
VF_HARNESS(for_each_2) { each_2<rnd>(); }
VF_HARNESS(for_each_3) { each_3<fwd>(); }
VF_HARNESS(for_each_n_long) { each_n<pos>(); }
VF_HARNESS(for_each_n_int) { each_n<int>(); }
VF_HARNESS(for_each_n_unsigned) { each_n<unsigned>(); }
VF_HARNESS(for_each_n_size) { each_n<std::size_t>(); }
VF_HARNESS(for_each_n_byte) { each_n<std::uint8_t>(); }
VF_HARNESS(for_each_n_3) { each_n_3<int>(); }
VF_HARNESS(butlastn_fwd_int) { butlastn<fwd, int>(); }
VF_HARNESS(butlastn_fwd_size) { butlastn<fwd, std::size_t>(); }
VF_HARNESS(butlastn_rnd_int) { butlastn<rnd, int>(); }
VF_HARNESS(butlastn_rnd_unsigned) { butlastn<rnd, unsigned>(); }
VF_HARNESS(butlastn_rnd_size) { butlastn<rnd, std::size_t>(); }
VF_HARNESS(butlastn_3_fwd) { butlastn_3<fwd>(); }
VF_HARNESS(butlastn_3_rnd) { butlastn_3<rnd>(); }
VF_HARNESS(butlast_fwd) { butlast<fwd>(); }
VF_HARNESS(butlast_rnd) { butlast<rnd>(); }
VF_HARNESS(butlast_2_fwd) { butlast_2<fwd>(); }
VF_HARNESS(butlast_2_rnd) { butlast_2<rnd>(); }
VF_HARNESS(imf_fwd) { imf<fwd>(); }
VF_HARNESS(imf_rnd) { imf<rnd>(); }
