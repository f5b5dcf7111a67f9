/* Prelude of every translated unit: integer types, LLVM intrinsics as C, and
   the nondeterministic-input primitive whose values are read off cbmc traces. */
#include <stdint.h>
typedef void *ptr_t;
typedef unsigned __int128 u128_t;
typedef __int128 s128_t;

_Bool nondet__Bool(void);
uint8_t nondet_uint8_t(void);
uint16_t nondet_uint16_t(void);
uint32_t nondet_uint32_t(void);
uint64_t nondet_uint64_t(void);
u128_t nondet_u128_t(void);
ptr_t nondet_ptr(void);
float nondet_float(void);
double nondet_double(void);

uint64_t vf_log;
uint64_t vf_nondet(void)
{
  uint64_t vf_in = nondet_uint64_t();
  vf_log = vf_in;
  return vf_in;
}

/* Loop cuts (ll2c --cut): candidate invariants switched on or off. */
#ifdef VF_CUT
#include "cands.h"
#define VF_SEL_0(c, t)
#define VF_SEL_1(c, t) __CPROVER_assert(c, t);
#define VF_SAS_0(c)
#define VF_SAS_1(c) __CPROVER_assume(c);
#define VF_CAT_(a, b) a##b
#define VF_CAT(a, b) VF_CAT_(a, b)
#define VF_INV(id, c, t) VF_CAT(VF_SEL_, VF_ON_##id)(c, t)
#define VF_ASM(id, c) VF_CAT(VF_SAS_, VF_ON_##id)(c)
uint64_t vf_havoc(void) { return nondet_uint64_t(); }
#endif

/* Products and quotients of two variables.  With VF_UF they are uninterpreted:
   the low bits of a product are a function of the operands, whatever the
   width it is computed in.  An over-approximation, so proofs stay valid. */
#ifdef VF_UF
uint64_t __CPROVER_uninterpreted_mul(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_div(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_rem(uint64_t, uint64_t);
static uint64_t VF_MUL(uint64_t a, uint64_t b)
{
  return a < b ? __CPROVER_uninterpreted_mul(a, b) : __CPROVER_uninterpreted_mul(b, a);
}
#define VF_DIV(a, b) __CPROVER_uninterpreted_div(a, b)
#define VF_REM(a, b) __CPROVER_uninterpreted_rem(a, b)
#elif defined VF_DIVQ || defined VF_DIVU
/* VF_DIVQ: division by its defining property, the quotient a function of the
   operands: exact, and the same division done twice is seen to be the same.
   VF_DIVU: only that, and the bound of a remainder: an over-approximation. */
uint64_t __CPROVER_uninterpreted_div(uint64_t, uint64_t);
uint64_t __CPROVER_uninterpreted_rem(uint64_t, uint64_t);
#define VF_MUL(a, b) ((uint64_t)(a) * (uint64_t)(b))
#ifdef VF_DIVU
static uint64_t VF_DIV(uint64_t a, uint64_t b)
{
  uint64_t q = __CPROVER_uninterpreted_div(a, b);
  __CPROVER_assume(q <= a);
  return q;
}
static uint64_t VF_REM(uint64_t a, uint64_t b)
{
  uint64_t r = __CPROVER_uninterpreted_rem(a, b);
  __CPROVER_assume(b == 0 || r < b);
  return r;
}
#else
static uint64_t VF_DIV(uint64_t a, uint64_t b)
{
  uint64_t q = __CPROVER_uninterpreted_div(a, b);
  __CPROVER_assume(b == 0 || (q <= ~0ULL / b && q * b <= a && a - q * b < b));
  return q;
}
static uint64_t VF_REM(uint64_t a, uint64_t b) { return a - VF_DIV(a, b) * b; }
#endif
#ifdef VF_DIVU
int64_t __CPROVER_uninterpreted_sdiv(int64_t, int64_t);
int64_t __CPROVER_uninterpreted_srem(int64_t, int64_t);
static int64_t vf_sdiv(int64_t a, int64_t b)
{
  int64_t q = __CPROVER_uninterpreted_sdiv(a, b);
  __CPROVER_assume(b <= 0 || (a < 0 ? a <= q && q <= 0 : 0 <= q && q <= a));
  return q;
}
static int64_t vf_srem(int64_t a, int64_t b)
{
  int64_t r = __CPROVER_uninterpreted_srem(a, b);
  __CPROVER_assume(b <= 0 || (a < 0 ? -b < r && r <= 0 : 0 <= r && r < b));
  return r;
}
#else
static int64_t vf_sdiv(int64_t a, int64_t b)
{
  uint64_t q = VF_DIV(a < 0 ? 0 - (uint64_t)a : (uint64_t)a, b < 0 ? 0 - (uint64_t)b : (uint64_t)b);
  return (int64_t)((a < 0) != (b < 0) ? 0 - q : q);
}
static int64_t vf_srem(int64_t a, int64_t b)
{
  uint64_t r = VF_REM(a < 0 ? 0 - (uint64_t)a : (uint64_t)a, b < 0 ? 0 - (uint64_t)b : (uint64_t)b);
  return (int64_t)(a < 0 ? 0 - r : r);
}
#endif
#define VF_UDIVC(T, x, y) ((T)VF_DIV(x, y))
#define VF_UREMC(T, x, y) ((T)VF_REM(x, y))
#define VF_SDIVC(T, x, y) ((T)vf_sdiv(x, y))
#define VF_SREMC(T, x, y) ((T)vf_srem(x, y))
#define VF_SDIV(T, x, y, u, v) ((T)vf_sdiv(x, y))
#define VF_SREM(T, x, y, u, v) ((T)vf_srem(x, y))
#else
#define VF_MUL(a, b) ((uint64_t)(a) * (uint64_t)(b))
#define VF_DIV(a, b) ((uint64_t)(a) / (uint64_t)(b))
#define VF_REM(a, b) ((uint64_t)(a) % (uint64_t)(b))
#endif
/* x, y: signed; u, v: the same, unsigned */
#ifndef VF_SDIVC
#define VF_UDIVC(T, x, y) ((T)((x) / (y)))
#define VF_UREMC(T, x, y) ((T)((x) % (y)))
#define VF_SDIVC(T, x, y) ((T)((x) / (y)))
#define VF_SREMC(T, x, y) ((T)((x) % (y)))
#define VF_SDIV(T, x, y, u, v) ((x) >= 0 && (y) >= 0 ? (T)VF_DIV(u, v) : (T)((x) / (y)))
#define VF_SREM(T, x, y, u, v) ((x) >= 0 && (y) >= 0 ? (T)VF_REM(u, v) : (T)((x) % (y)))
#endif

static uint64_t vf_ctpop64(uint64_t x)
{
  x = x - ((x >> 1) & 0x5555555555555555ULL);
  x = (x & 0x3333333333333333ULL) + ((x >> 2) & 0x3333333333333333ULL);
  x = (x + (x >> 4)) & 0x0f0f0f0f0f0f0f0fULL;
  x = x + (x >> 8);
  x = x + (x >> 16);
  x = x + (x >> 32);
  return x & 0x7f;
}
static uint32_t vf_ctpop32(uint32_t x)
{
  x = x - ((x >> 1) & 0x55555555U);
  x = (x & 0x33333333U) + ((x >> 2) & 0x33333333U);
  x = (x + (x >> 4)) & 0x0f0f0f0fU;
  x = x + (x >> 8);
  x = x + (x >> 16);
  return x & 0x3f;
}
static uint16_t vf_ctpop16(uint16_t x) { return (uint16_t)vf_ctpop32(x); }
static uint8_t vf_ctpop8(uint8_t x) { return (uint8_t)vf_ctpop32(x); }

static uint64_t vf_cttz64(uint64_t x)
{
  if(x == 0) return 64;
  uint64_t n = 0;
  if((x & 0xffffffffULL) == 0) { n += 32; x >>= 32; }
  if((x & 0xffffULL) == 0) { n += 16; x >>= 16; }
  if((x & 0xffULL) == 0) { n += 8; x >>= 8; }
  if((x & 0xfULL) == 0) { n += 4; x >>= 4; }
  if((x & 0x3ULL) == 0) { n += 2; x >>= 2; }
  if((x & 0x1ULL) == 0) { n += 1; }
  return n;
}
static uint32_t vf_cttz32(uint32_t x) { return x == 0 ? 32 : (uint32_t)vf_cttz64(x); }
static uint16_t vf_cttz16(uint16_t x) { return x == 0 ? 16 : (uint16_t)vf_cttz64(x); }
static uint8_t vf_cttz8(uint8_t x) { return x == 0 ? 8 : (uint8_t)vf_cttz64(x); }

static uint64_t vf_ctlz64(uint64_t x)
{
  if(x == 0) return 64;
  uint64_t n = 0;
  if((x >> 32) == 0) { n += 32; x <<= 32; }
  if((x >> 48) == 0) { n += 16; x <<= 16; }
  if((x >> 56) == 0) { n += 8; x <<= 8; }
  if((x >> 60) == 0) { n += 4; x <<= 4; }
  if((x >> 62) == 0) { n += 2; x <<= 2; }
  if((x >> 63) == 0) { n += 1; }
  return n;
}
static uint32_t vf_ctlz32(uint32_t x) { return (uint32_t)(vf_ctlz64(x) - 32); }
static uint16_t vf_ctlz16(uint16_t x) { return (uint16_t)(vf_ctlz64(x) - 48); }
static uint8_t vf_ctlz8(uint8_t x) { return (uint8_t)(vf_ctlz64(x) - 56); }

static uint16_t vf_bswap16(uint16_t x) { return (uint16_t)((x << 8) | (x >> 8)); }
static uint32_t vf_bswap32(uint32_t x)
{
  return (x << 24) | ((x << 8) & 0xff0000U) | ((x >> 8) & 0xff00U) | (x >> 24);
}
static uint64_t vf_bswap64(uint64_t x)
{
  return ((uint64_t)vf_bswap32((uint32_t)x) << 32) | vf_bswap32((uint32_t)(x >> 32));
}

static void vf_memmove(ptr_t d, ptr_t s, uint64_t n)
{
  uint8_t *D = d;
  const uint8_t *S = s;
  if(n == 0) return;
  if(__CPROVER_POINTER_OBJECT(D) == __CPROVER_POINTER_OBJECT(S) &&
     __CPROVER_POINTER_OFFSET(D) > __CPROVER_POINTER_OFFSET(S))
  {
    for(uint64_t i = n; i > 0; --i) D[i - 1] = S[i - 1];
  }
  else
  {
    for(uint64_t i = 0; i < n; ++i) D[i] = S[i];
  }
}
static void vf_memset(ptr_t d, uint8_t v, uint64_t n)
{
  uint8_t *D = d;
  for(uint64_t i = 0; i < n; ++i) D[i] = v;
}
uint32_t memcmp(ptr_t a, ptr_t b, uint64_t n)
{
  const uint8_t *A = a, *B = b;
  for(uint64_t i = 0; i < n; ++i)
    if(A[i] != B[i]) return A[i] < B[i] ? (uint32_t)-1 : 1u;
  return 0;
}
ptr_t memchr(ptr_t a, uint32_t c, uint64_t n)
{
  uint8_t *A = a;
  for(uint64_t i = 0; i < n; ++i)
    if(A[i] == (uint8_t)c) return A + i;
  return 0;
}
uint64_t strlen(ptr_t a)
{
  const uint8_t *A = a;
  uint64_t i = 0;
  while(A[i] != 0) ++i;
  return i;
}
