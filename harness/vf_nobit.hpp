#pragma once
// Makes bit.hpp compile its own versions of the <bit> facilities.
#include <algorithm>
#include <array>
#include <bit>
#include <climits>
#include <cstdint>
#include <functional>
#include <iterator>
#include <limits>
#include <numeric>
#include <type_traits>
#include <utility>
#undef __cpp_lib_byteswap
#undef __cpp_lib_bitops
#undef __cpp_lib_int_pow2
#undef __cpp_lib_endian
#undef __cpp_lib_bit_cast
#define __cpp_lib_byteswap 0
#define __cpp_lib_bitops 0
#define __cpp_lib_int_pow2 0
#define __cpp_lib_endian 0
#define __cpp_lib_bit_cast 0
#ifdef VF_NOCLANG
#include <stdx/compiler.hpp>
#include <stdx/concepts.hpp>
#include <stdx/type_traits.hpp>
#include <stdx/utility.hpp>
#undef __clang__
#endif
