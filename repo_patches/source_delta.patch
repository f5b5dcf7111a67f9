From 87c1e4d5ea8c5fe8a4d1bf740a1c0b586326e757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 01/17] fix: ignore bits beyond N in bitset readers

set(), flip(), operator~ and operator<<= may leave bits set beyond the
bitset's size in the last storage element. operator>>= shifted them into
range, transform_reduce visited them and lowest_unset returned the storage
width instead of N. Mask them where the storage is read.
---
 include/stdx/bitset.hpp | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index a48b7d9..b804b89 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -163,16 +163,8 @@ class bitset {
 
     template <typename T, typename F, typename R>
     constexpr auto transform_reduce(F &&f, R &&r, T init) const -> T {
-        std::size_t i = 0;
-        for (auto e : storage) {
-            while (e != 0) {
-                auto const offset = static_cast<std::size_t>(countr_zero(e));
-                e &= static_cast<elem_t>(~(bit << offset));
-                init =
-                    r(std::move(init), f(static_cast<iter_arg_t>(i + offset)));
-            }
-            i += std::numeric_limits<elem_t>::digits;
-        }
+        for_each<set_bit>(
+            [&](iter_arg_t i) { init = r(std::move(init), f(i)); });
         return init;
     }
 
@@ -405,11 +397,11 @@ class bitset {
         for (auto e : storage) {
             if (auto offset = static_cast<std::size_t>(countr_one(e));
                 offset != std::numeric_limits<elem_t>::digits) {
-                return static_cast<iter_arg_t>(i + offset);
+                return static_cast<iter_arg_t>(std::min(i + offset, N));
             }
             i += std::numeric_limits<elem_t>::digits;
         }
-        return static_cast<iter_arg_t>(i);
+        return static_cast<iter_arg_t>(N);
     }
 
     [[nodiscard]] constexpr auto operator~() const -> bitset {
@@ -469,6 +461,7 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            storage.back() = highbits();
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
             pos %= storage_elem_size;
-- 
2.43.0


From 99d87e4790b32914b454dbfaf17ffe6389aa2d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 02/17] fix: shift a bitset by its size or more to zero

A large shift left the top storage element in place (>>) or wrapped the
start index (<<). As with std::bitset the result is empty.
---
 include/stdx/bitset.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index b804b89..0d5f931 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -433,6 +433,9 @@ class bitset {
 
     constexpr auto operator<<=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             auto dst = storage_size - 1;
             auto const start = dst - (pos / storage_elem_size);
             pos %= storage_elem_size;
@@ -461,6 +464,9 @@ class bitset {
 
     constexpr auto operator>>=(std::size_t pos) LIFETIMEBOUND->bitset & {
         if constexpr (N != 0) {
+            if (pos >= N) {
+                return reset();
+            }
             storage.back() = highbits();
             auto dst = std::size_t{};
             auto const start = pos / storage_elem_size;
-- 
2.43.0


From acda09b2f5692511427e2ed1eb4d3faf1bfb1246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 03/17] fix: make for_each and integer construction safe for an
 empty bitset

With no storage elements, storage_size - 1 wraps and storage[0] does not
exist.
---
 include/stdx/bitset.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 0d5f931..736a2b7 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -147,14 +147,16 @@ class bitset {
 
     template <detail::bit_spec Spec, typename F>
     constexpr auto for_each(F &&f) const -> F {
-        std::size_t idx = 0;
-        for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
-            Spec::template fn<bit, iter_arg_t,
-                              std::numeric_limits<elem_t>::max()>(storage[i],
-                                                                  idx, f);
-            idx += std::numeric_limits<elem_t>::digits;
+        if constexpr (N != 0) {
+            std::size_t idx = 0;
+            for (auto i = std::size_t{}; i < storage_size - 1; ++i) {
+                Spec::template fn<bit, iter_arg_t,
+                                  std::numeric_limits<elem_t>::max()>(
+                    storage[i], idx, f);
+                idx += std::numeric_limits<elem_t>::digits;
+            }
+            Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         }
-        Spec::template fn<bit, iter_arg_t, lastmask>(highbits(), idx, f);
         return std::forward<F>(f);
     }
 
@@ -175,7 +177,9 @@ class bitset {
   public:
     constexpr bitset() = default;
     constexpr explicit bitset(std::uint64_t value) {
-        if constexpr (std::is_same_v<elem_t, std::uint64_t>) {
+        if constexpr (N == 0) {
+            return;
+        } else if constexpr (std::is_same_v<elem_t, std::uint64_t>) {
             storage[0] = value;
         } else {
             for (auto &elem : storage) {
-- 
2.43.0


From c4ac82d778e6d1c37444aaa97b03282b8f48800e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 04/17] fix: use the same index for all type_bitset members

set, reset and flip looked a type up in the list with duplicates, indexing
and construction in the list without, so with a repeated type they
addressed different bits.
---
 include/stdx/bitset.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 736a2b7..8fe0042 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -604,30 +604,30 @@ template <typename... Ts> class type_bitset {
     [[nodiscard]] constexpr auto operator[](TI) const -> decltype(auto) {
         using T = typename TI::type;
         constexpr auto idx = detail::index_of<T, list_t>;
-        static_assert(idx < sizeof...(Ts), "Type not found in bitset");
+        static_assert(idx < N, "Type not found in bitset");
         return bs[idx];
     }
 
     template <typename... Us>
     constexpr auto set(bool value = true) LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.set();
         } else {
-            (bs.set(detail::index_of<Us, type_list<Ts...>>, value), ...);
+            (bs.set(detail::index_of<Us, list_t>, value), ...);
         }
         return *this;
     }
 
     template <typename... Us>
     constexpr auto reset() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.reset();
         } else {
-            (bs.reset(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.reset(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
@@ -639,12 +639,12 @@ template <typename... Ts> class type_bitset {
 
     template <typename... Us>
     constexpr auto flip() LIFETIMEBOUND -> type_bitset & {
-        static_assert((... and (detail::index_of<Us, type_list<Ts...>> < N)),
+        static_assert((... and (detail::index_of<Us, list_t> < N)),
                       "Type not found in bitset");
         if constexpr (sizeof...(Us) == 0) {
             bs.flip();
         } else {
-            (bs.flip(detail::index_of<Us, type_list<Ts...>>), ...);
+            (bs.flip(detail::index_of<Us, list_t>), ...);
         }
         return *this;
     }
-- 
2.43.0


From c56cef6bf03c78beb4f67ad5e56255730b8ad92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 05/17] fix: keep the key when cx_multimap::erase(k, v) erases
 nothing

A key inserted without values was dropped by erasing an absent value,
although the call reported that nothing was erased.
---
 include/stdx/cx_multimap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/cx_multimap.hpp b/include/stdx/cx_multimap.hpp
index 86ba742..5559bab 100644
--- a/include/stdx/cx_multimap.hpp
+++ b/include/stdx/cx_multimap.hpp
@@ -74,7 +74,7 @@ class cx_multimap {
         if (storage.contains(k)) {
             auto &s = storage.get(k);
             auto const r = s.erase(v);
-            if (s.empty()) {
+            if (r != 0 and s.empty()) {
                 storage.erase(k);
             }
             return r;
-- 
2.43.0


From c3a943683120a5264b95719afc864e4db29114f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 06/17] fix: avoid signed overflow when multiplying
 rollover_t<uint16_t>

The operands were promoted to int, and the product of two 16-bit values can
overflow it.
---
 include/stdx/rollover.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/rollover.hpp b/include/stdx/rollover.hpp
index a791df8..6f70eb2 100644
--- a/include/stdx/rollover.hpp
+++ b/include/stdx/rollover.hpp
@@ -52,7 +52,8 @@ template <typename T> struct rollover_t {
         return *this;
     }
     constexpr auto operator*=(rollover_t other) -> rollover_t & {
-        value *= other.value;
+        // multiply as at least unsigned int: promotion to int could overflow
+        value = static_cast<underlying_t>(1u * value * other.value);
         return *this;
     }
     constexpr auto operator/=(rollover_t other) -> rollover_t & {
-- 
2.43.0


From b040cf375d50308dae525e0875f0779f74caf3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 07/17] fix: saturate_cast between types of different sign and
 size

Casting a wide unsigned value to a narrow signed type clamped with a
negative bound converted to unsigned; casting a negative value to a wider
unsigned type did not saturate at zero.
---
 include/stdx/numeric.hpp | 25 +++++++++++++------------
 1 file changed, 13 insertions(+), 12 deletions(-)

diff --git a/include/stdx/numeric.hpp b/include/stdx/numeric.hpp
index 2706030..ca22fed 100644
--- a/include/stdx/numeric.hpp
+++ b/include/stdx/numeric.hpp
@@ -38,23 +38,24 @@ constexpr auto saturate_cast(From from) -> To {
     constexpr auto to_min = std::numeric_limits<To>::min();
     constexpr auto to_max = std::numeric_limits<To>::max();
 
-    if constexpr (sizeof(From) > sizeof(To)) {
-        auto const clamped = std::clamp<From>(from, to_min, to_max);
-        return static_cast<To>(clamped);
-    }
-
-    if constexpr (sizeof(From) == sizeof(To)) {
-        if constexpr (std::is_unsigned_v<From> and std::is_signed_v<To>) {
-            if (from > to_max) {
+    if constexpr (std::is_unsigned_v<From> and std::is_signed_v<To>) {
+        if constexpr (sizeof(From) >= sizeof(To)) {
+            if (from > static_cast<From>(to_max)) {
                 return to_max;
             }
         }
-
-        if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
-            if (from < 0) {
-                return static_cast<To>(0);
+    } else if constexpr (std::is_signed_v<From> and std::is_unsigned_v<To>) {
+        if (from < 0) {
+            return to_min;
+        }
+        if constexpr (sizeof(From) > sizeof(To)) {
+            if (from > static_cast<From>(to_max)) {
+                return to_max;
             }
         }
+    } else if constexpr (sizeof(From) > sizeof(To)) {
+        auto const clamped = std::clamp<From>(from, to_min, to_max);
+        return static_cast<To>(clamped);
     }
 
     return static_cast<To>(from);
-- 
2.43.0


From 6035aae4c5089ccdc6ac3cdebd1850793db1f448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:23:26 +0000
Subject: [PATCH 08/17] fix: terminate an intrusive_list when inserting at its
 end

insert(end(), n) left n->next as it was, so with the unchecked policy the
list continued with whatever the node pointed to before.
---
 include/stdx/intrusive_list.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stdx/intrusive_list.hpp b/include/stdx/intrusive_list.hpp
index 2f8ccd4..8cff599 100644
--- a/include/stdx/intrusive_list.hpp
+++ b/include/stdx/intrusive_list.hpp
@@ -91,6 +91,7 @@ class intrusive_list {
             n->prev = p->prev;
             p->prev = n;
         } else {
+            n->next = nullptr;
             n->prev = tail;
             tail = n;
         }
-- 
2.43.0


From e263c2e65192a086c9047fb210fb96fffcaf5c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 17:27:45 +0000
Subject: [PATCH 09/17] fix: make cx_vector reverse iterators usable

rbegin, rend and their const forms returned a pointer where an explicit
conversion to std::reverse_iterator is needed, so calling them did not
compile.
---
 include/stdx/cx_vector.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stdx/cx_vector.hpp b/include/stdx/cx_vector.hpp
index ef1bf2d..0d8814e 100644
--- a/include/stdx/cx_vector.hpp
+++ b/include/stdx/cx_vector.hpp
@@ -58,27 +58,27 @@ template <typename T, std::size_t N> class cx_vector {
     }
 
     [[nodiscard]] constexpr auto rbegin() LIFETIMEBOUND -> reverse_iterator {
-        return end();
+        return reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto rbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return end();
+        return const_reverse_iterator{end()};
     }
     [[nodiscard]] constexpr auto crbegin() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cend();
+        return const_reverse_iterator{cend()};
     }
 
     [[nodiscard]] constexpr auto rend() LIFETIMEBOUND -> reverse_iterator {
-        return begin();
+        return reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto rend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return begin();
+        return const_reverse_iterator{begin()};
     }
     [[nodiscard]] constexpr auto crend() const LIFETIMEBOUND
         -> const_reverse_iterator {
-        return cbegin();
+        return const_reverse_iterator{cbegin()};
     }
 
     [[nodiscard]] constexpr auto front() LIFETIMEBOUND -> reference {
-- 
2.43.0


From 138f366aa5a8566cc97d0d1d8a6fc23da2b12bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:40:23 +0000
Subject: [PATCH 10/17] fix: bit_ceil, bit_floor and rotate fallbacks for wide
 values and large shifts

The fallbacks used when the standard library lacks <bit> support shifted
a 32-bit one, so bit_ceil and bit_floor were wrong for 64-bit values.
rotl and rotr negated the shift, which overflows for INT_MIN, and the
generic version shifted by more than the width for large shifts.
Reduce the shift modulo the width first.
---
 include/stdx/bit.hpp | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/include/stdx/bit.hpp b/include/stdx/bit.hpp
index 5587bfa..5da0625 100644
--- a/include/stdx/bit.hpp
+++ b/include/stdx/bit.hpp
@@ -170,25 +170,27 @@ template <typename T>
 template <typename T>
 [[nodiscard]] constexpr auto rotl(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
-    if (s == 0) {
+    auto const r = s % std::numeric_limits<T>::digits;
+    if (r == 0) {
         return x;
     }
-    if (s < 0) {
-        return detail::rotr(x, T(-s));
+    if (r < 0) {
+        return detail::rotr(x, T(-r));
     }
-    return detail::rotl(x, T(s));
+    return detail::rotl(x, T(r));
 }
 
 template <typename T>
 [[nodiscard]] constexpr auto rotr(T x, int s) noexcept
     -> std::enable_if_t<std::is_unsigned_v<T>, T> {
-    if (s == 0) {
+    auto const r = s % std::numeric_limits<T>::digits;
+    if (r == 0) {
         return x;
     }
-    if (s < 0) {
-        return detail::rotl(x, T(-s));
+    if (r < 0) {
+        return detail::rotl(x, T(-r));
     }
-    return detail::rotr(x, T(s));
+    return detail::rotr(x, T(r));
 }
 #else
 using std::countl_one;
@@ -221,7 +223,7 @@ template <typename T>
     if (x <= 1U) {
         return 1U;
     }
-    return T(1U << bit_width(x - 1U));
+    return T(T{1} << bit_width(T(x - 1U)));
 }
 
 template <typename T>
@@ -230,7 +232,7 @@ template <typename T>
     if (x == 0) {
         return x;
     }
-    return T(1U << (bit_width(x) - 1));
+    return T(T{1} << (bit_width(x) - 1));
 }
 #else
 using std::bit_ceil;
-- 
2.43.0


From da4f19acebf8e043994342d883f6bbee163c78f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 19:41:26 +0000
Subject: [PATCH 11/17] fix: allow bitset::to a narrower type than the storage
 and to an enum

Converting a bitset whose storage element is wider than the target, or
whose several elements are gathered into an enumeration, did not compile.
This includes to_natural with an explicit wide storage element.
---
 include/stdx/bitset.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stdx/bitset.hpp b/include/stdx/bitset.hpp
index 8fe0042..a021eaa 100644
--- a/include/stdx/bitset.hpp
+++ b/include/stdx/bitset.hpp
@@ -236,10 +236,12 @@ class bitset {
         if constexpr (std::is_same_v<elem_t, U>) {
             return static_cast<T>(storage[0] & lastmask);
         } else {
-            U result{highbits()};
-            for (auto i = storage_size - 2u; i < storage_size; --i) {
-                result = static_cast<T>(result << storage_elem_size);
-                result |= storage[i];
+            auto result = static_cast<U>(highbits());
+            if constexpr (storage_size > 1) {
+                for (auto i = storage_size - 2u; i < storage_size; --i) {
+                    result = static_cast<U>(result << storage_elem_size);
+                    result |= storage[i];
+                }
             }
             return static_cast<T>(result);
         }
-- 
2.43.0


From 9c0258ef97157db0206235430d2bfebf0c9f08ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:45:36 +0000
Subject: [PATCH 12/17] fix: avoid signed overflow in the results of atomic
 compound assignments

The stored value wraps, as it does for std::atomic, but the value returned by
+=, -=, ++ and -- was computed with plain signed arithmetic, which is undefined
when it overflows.
---
 include/stdx/atomic.hpp | 26 ++++++++++++++++++++++----
 1 file changed, 22 insertions(+), 4 deletions(-)

diff --git a/include/stdx/atomic.hpp b/include/stdx/atomic.hpp
index c1a6d9f..c2dc628 100644
--- a/include/stdx/atomic.hpp
+++ b/include/stdx/atomic.hpp
@@ -39,6 +39,24 @@ template <typename T> class atomic {
 
     alignas(alignment) elem_t value;
 
+    // atomic signed arithmetic wraps: so must the values computed from it
+    template <typename U> constexpr static auto wrapping_add(U x, U y) {
+        if constexpr (std::is_integral_v<U> and std::is_signed_v<U>) {
+            using V = std::make_unsigned_t<U>;
+            return static_cast<U>(static_cast<V>(x) + static_cast<V>(y));
+        } else {
+            return x + y;
+        }
+    }
+    template <typename U> constexpr static auto wrapping_sub(U x, U y) {
+        if constexpr (std::is_integral_v<U> and std::is_signed_v<U>) {
+            using V = std::make_unsigned_t<U>;
+            return static_cast<U>(static_cast<V>(x) - static_cast<V>(y));
+        } else {
+            return x - y;
+        }
+    }
+
   public:
     using value_type = T;
 
@@ -80,12 +98,12 @@ template <typename T> class atomic {
         return ::atomic::fetch_sub(value, static_cast<elem_t>(t), mo);
     }
 
-    auto operator+=(T t) -> T { return fetch_add(t) + t; }
-    auto operator-=(T t) -> T { return fetch_sub(t) - t; }
+    auto operator+=(T t) -> T { return wrapping_add(fetch_add(t), t); }
+    auto operator-=(T t) -> T { return wrapping_sub(fetch_sub(t), t); }
 
     auto operator++() -> T {
         static_assert(requires(T t) { ++t; }, "T must support operator++()");
-        return ::atomic::fetch_add(value, 1) + 1;
+        return wrapping_add(::atomic::fetch_add(value, 1), elem_t{1});
     }
     [[nodiscard]] auto operator++(int) -> T {
         static_assert(requires(T t) { t++; }, "T must support operator++(int)");
@@ -93,7 +111,7 @@ template <typename T> class atomic {
     }
     auto operator--() -> T {
         static_assert(requires(T t) { --t; }, "T must support operator--()");
-        return ::atomic::fetch_sub(value, 1) - 1;
+        return wrapping_sub(::atomic::fetch_sub(value, 1), elem_t{1});
     }
     [[nodiscard]] auto operator--(int) -> T {
         static_assert(requires(T t) { t--; }, "T must support operator--(int)");
-- 
2.43.0


From 372070e3b2204343ef6ccde7ab717ce778fde6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:43 +0000
Subject: [PATCH 13/17] fix: keep every value in cartesian_product_copy of
 temporaries

Each element goes into several results, but was moved into the first of them,
so the others held a moved-from value.
---
 include/stdx/tuple_algorithms.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple_algorithms.hpp b/include/stdx/tuple_algorithms.hpp
index be86d1f..cda5cea 100644
--- a/include/stdx/tuple_algorithms.hpp
+++ b/include/stdx/tuple_algorithms.hpp
@@ -442,8 +442,14 @@ template <tuplelike... Ts> constexpr auto cartesian_product_copy(Ts &&...ts) {
                                                         Elems &&...elems) {
                 [[maybe_unused]] auto const prepend = [&]<typename E>(E &&e) {
                     return c.apply([&](auto... subs) {
-                        return make_tuple(
-                            tuple_cat(make_tuple(std::forward<E>(e)), subs)...);
+                        if constexpr (sizeof...(subs) == 1) {
+                            return make_tuple(tuple_cat(
+                                make_tuple(std::forward<E>(e)), subs)...);
+                        } else {
+                            // e is in each result: don't move from it
+                            return make_tuple(
+                                tuple_cat(make_tuple(e), subs)...);
+                        }
                     });
                 };
                 return tuple_cat(prepend(std::forward<Elems>(elems))...);
-- 
2.43.0


From 56e718bb38a8b76846f14d4423e96afe0f255fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 21:59:43 +0000
Subject: [PATCH 14/17] fix: allow for_each over one tuple with an lvalue
 function

The function was returned as a copy from a lambda, which a reference return type
cannot bind to.
---
 include/stdx/tuple.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/tuple.hpp b/include/stdx/tuple.hpp
index dbb76c2..00df823 100644
--- a/include/stdx/tuple.hpp
+++ b/include/stdx/tuple.hpp
@@ -515,10 +515,10 @@ constexpr auto transform(Op &&op, T &&t) {
 
 template <typename Op, tuplelike T>
 constexpr auto for_each(Op &&op, T &&t) -> Op {
-    return std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
+    std::forward<T>(t).apply([&]<typename... Ts>(Ts &&...ts) {
         (op(std::forward<Ts>(ts)), ...);
-        return op;
     });
+    return op;
 }
 
 template <typename... Ts>
-- 
2.43.0


From 7f6ab21932bf41868937f374a92d699b5869bc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:32:18 +0000
Subject: [PATCH 15/17] fix: let call_by_need take an lvalue tuple of functions

The tuple size was asked of the reference type, which has none, so the
functions were dropped and arguments were passed through in place of
results (or compilation failed).
---
 include/stdx/call_by_need.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stdx/call_by_need.hpp b/include/stdx/call_by_need.hpp
index e4355cc..fa028d1 100644
--- a/include/stdx/call_by_need.hpp
+++ b/include/stdx/call_by_need.hpp
@@ -162,7 +162,7 @@ constexpr auto call_by_need(Fs &&fs, Args &&args) {
     auto new_fs = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple{get<Is>(std::forward<Fs>(fs))...,
                      cbn_detail::safe_forward{}};
-    }(std::make_index_sequence<tuple_size_v<Fs>>{});
+    }(std::make_index_sequence<tuple_size_v<std::remove_cvref_t<Fs>>>{});
 
     auto ret = [&]<std::size_t... Is>(std::index_sequence<Is...>) {
         return tuple<
-- 
2.43.0


From 838020026c439606226abcd1b4477c4d0ee89698 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 22:44:12 +0000
Subject: [PATCH 16/17] fix: return the function and iterators from
 for_each_butlastn for std iterators

The unqualified call to for_each_n found std::for_each_n through argument-
dependent lookup for iterators of std containers. Its result is an iterator
only, so initial_medial_final did not compile for them.
---
 include/stdx/algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stdx/algorithm.hpp b/include/stdx/algorithm.hpp
index d2ccb99..926783a 100644
--- a/include/stdx/algorithm.hpp
+++ b/include/stdx/algorithm.hpp
@@ -93,7 +93,8 @@ constexpr auto for_each_butlastn(std::random_access_iterator_tag, RandIt first,
                                  RandIt last, N n, Operation op,
                                  RandItN... first_n) {
     auto const sz = std::distance(first, last);
-    return for_each_n(first, sz - static_cast<decltype(sz)>(n), op, first_n...);
+    return stdx::for_each_n(first, sz - static_cast<decltype(sz)>(n), op,
+                            first_n...);
 }
 } // namespace detail
 
-- 
2.43.0


From 812ac47964fadba4dc1a19cbdc06bea64337b518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:08 +0000
Subject: [PATCH 17/17] fix: keep a tuple argument of ct_format as one argument

Deducing the type of tuple{arg} copies arg when it is a tuple itself, so its
elements became several run-time arguments for one field.
---
 include/stdx/ct_format.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stdx/ct_format.hpp b/include/stdx/ct_format.hpp
index 6f9c567..b8a4986 100644
--- a/include/stdx/ct_format.hpp
+++ b/include/stdx/ct_format.hpp
@@ -364,9 +364,9 @@ constexpr auto format1(Arg arg) {
         if constexpr (not Name.empty()) {
             using name_info_t = named_arg<Name, Arg, 0>;
             return make_format_result<type_list<name_info_t>>(
-                cts_t<Fmt>{}, tuple{std::move(arg)});
+                cts_t<Fmt>{}, tuple<Arg>{std::move(arg)});
         } else {
-            return make_format_result(cts_t<Fmt>{}, tuple{std::move(arg)});
+            return make_format_result(cts_t<Fmt>{}, tuple<Arg>{std::move(arg)});
         }
     }
 }
-- 
2.43.0

