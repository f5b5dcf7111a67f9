// latched and cached: the function is called once, on first access.
#include "vf.hpp"

#include <stdx/cached.hpp>
#include <stdx/latched.hpp>

#include <utility>

using u32 = std::uint32_t;

static int calls = 0;
static u32 last = 0;

struct result {
    u32 v;
    u32 w;
};
struct func {
    u32 tag;
    auto operator()() const -> result {
        ++calls;
        last = vf::any<u32>();
        return {last, tag};
    }
};
struct plain_func {
    auto operator()() const -> u32 {
        ++calls;
        last = vf::any<u32>();
        return last;
    }
};

// one access in any of the ways; the value and tag seen
template <typename C> static result access(C &c) {
    switch (vf::below(5)) {
    case 0: {
        return c.value();
    }
    case 1: {
        return *c;
    }
    case 2: {
        return {c->v, c->w};
    }
    case 3: {
        return *std::as_const(c);
    }
    default: {
        return std::as_const(c).value();
    }
    }
}
template <typename C> static void query(C const &c, bool has) {
    int const n = calls;
    vf_assert(c.has_value() == has, "has_value says whether there is a value");
    vf_assert(static_cast<bool>(c) == has, "bool says whether there is one");
    vf_assert(calls == n, "asking calls nothing");
}

// accesses from either state
template <template <typename> typename C> static void accesses() {
    u32 const tag = vf::any<u32>();
    calls = 0;
    func const f{tag};
    C<func> c{f};
    query(c, false);
    vf_assert(calls == 0, "construction calls nothing");
    result const a = access(c);
    vf_assert(calls == 1, "the first access calls the function once");
    vf_assert(a.v == last and a.w == tag, "and gives its result");
    query(c, true);
    u32 const first = last;
    // the state is now "has a value"; any access leaves it that way
    result const b = access(c);
    vf_assert(calls == 1, "a later access does not call the function");
    vf_assert(b.v == first and b.w == tag, "and gives the first result");
    query(c, true);
    vf_assert(&c.value() == &*c and &c.value() == c.operator->() and
                  &c.value() == &std::as_const(c).value(),
              "all accesses give the same object");
    result const d = access(c);
    vf_assert(calls == 1 and d.v == first and d.w == tag,
              "and so for every further access");
    C<func> const &k = c;
    result const e = std::move(k).value();
    vf_assert(calls == 1 and e.v == first and e.w == tag,
              "an rvalue access gives the first result");
    vf_reach("accessed");
}
VF_HARNESS(latched_access) { accesses<stdx::latched>(); }
VF_HARNESS(cached_access) { accesses<stdx::cached>(); }

template <template <typename> typename C> static void rvalue() {
    u32 const tag = vf::any<u32>();
    calls = 0;
    C<func> c{func{tag}};
    vf_assert(calls == 0, "construction calls nothing");
    bool const star = vf::any<bool>();
    result const a = star ? *std::move(c) : std::move(c).value();
    vf_assert(calls == 1 and a.v == last and a.w == tag,
              "an rvalue access calls the function once");
    vf_reach("rvalue");
    C<func> const d{func{tag}};
    result const b = star ? *std::move(d) : std::move(d).value();
    vf_assert(calls == 2 and b.v == last and b.w == tag,
              "so does a constant rvalue access");
}
VF_HARNESS(latched_rvalue) { rvalue<stdx::latched>(); }
VF_HARNESS(cached_rvalue) { rvalue<stdx::cached>(); }

template <template <typename> typename C> static void copies() {
    u32 const tag = vf::any<u32>();
    calls = 0;
    C<func> c{func{tag}};
    bool const touched = vf::any<bool>();
    u32 v = 0;
    if (touched) {
        v = access(c).v;
    }
    C<func> d{c};
    vf_assert(calls == (touched ? 1 : 0), "copying calls nothing");
    query(d, touched);
    result const a = access(d);
    vf_assert(calls == 1 and a.w == tag and a.v == (touched ? v : last),
              "a copy has the value if there was one");
    query(c, touched);
    vf_reach("copied");
}
VF_HARNESS(latched_copy) { copies<stdx::latched>(); }
VF_HARNESS(cached_copy) { copies<stdx::cached>(); }

// reset and refresh from either state
VF_HARNESS(cached_reset) {
    u32 const tag = vf::any<u32>();
    calls = 0;
    stdx::cached<func> c{func{tag}};
    bool const touched = vf::any<bool>();
    if (touched) {
        access(c);
    }
    int const n = calls;
    c.reset();
    vf_assert(calls == n, "reset calls nothing");
    query(c, false);
    result const a = access(c);
    vf_assert(calls == n + 1 and a.v == last and a.w == tag,
              "the next access computes afresh, once");
    query(c, true);
    u32 const v = last;
    result const b = access(c);
    vf_assert(calls == n + 1 and b.v == v and b.w == tag,
              "and keeps that result");
    vf_reach("reset");
}
VF_HARNESS(cached_reset_twice) {
    calls = 0;
    stdx::cached<func> c{func{1}};
    bool const touched = vf::any<bool>();
    if (touched) {
        access(c);
    }
    int const n = calls;
    c.reset();
    c.reset();
    query(c, false);
    access(c);
    vf_assert(calls == n + 1, "resetting twice is resetting");
    vf_reach("reset twice");
}
VF_HARNESS(cached_refresh) {
    u32 const tag = vf::any<u32>();
    calls = 0;
    stdx::cached<func> c{func{tag}};
    bool const touched = vf::any<bool>();
    if (touched) {
        access(c);
    }
    int const n = calls;
    auto &r = c.refresh();
    vf_assert(calls == n + 1, "refresh calls the function once");
    u32 const v = last;
    vf_assert(r.v == v and r.w == tag, "refresh gives the fresh value");
    query(c, true);
    result const b = access(c);
    vf_assert(calls == n + 1 and b.v == v and b.w == tag,
              "the fresh value is kept");
    vf_assert(&r == &c.value(), "refresh refers to the held value");
    vf_reach("refresh");
}
VF_HARNESS(scalar) {
    calls = 0;
    stdx::latched l{plain_func{}};
    stdx::cached c{plain_func{}};
    vf_assert(not l.has_value() and not c.has_value() and calls == 0,
              "nothing is called at first");
    u32 const a = *l;
    u32 const la = last;
    vf_assert(calls == 1 and not c.has_value() and a == la, "latched");
    u32 const b = c.value();
    vf_assert(calls == 2 and b == last, "cached");
    vf_assert(*l == a and *c == b and calls == 2, "both keep their values");
    u32 const d = c.refresh();
    vf_assert(calls == 3 and d == last and *c == d and *l == a and calls == 3,
              "refresh");
    vf_reach("scalar");
}
