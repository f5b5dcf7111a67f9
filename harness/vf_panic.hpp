#pragma once
// Panic handler with a contract: a panic may happen only where the harness
// says so, and ends the path.
#include "vf.hpp"

#include <stdx/panic.hpp>

inline bool vf_expect_panic = false;
inline unsigned vf_panics = 0;
inline bool vf_panic_returns = false;

struct vf_panic_handler {
    template <typename... Args> static auto panic(Args &&...) noexcept -> void {
        hit();
    }
    template <stdx::ct_string, typename... Args>
    static auto panic(Args &&...) noexcept -> void {
        hit();
    }
    static void hit() {
        ++vf_panics;
        vf_assert(vf_expect_panic, "panic only where it is specified");
        if (not vf_panic_returns) {
            vf_assume(false);
        }
    }
};
template <> inline auto stdx::panic_handler<> = vf_panic_handler{};
