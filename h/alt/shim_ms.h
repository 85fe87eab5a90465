/* stands in for Visual C++'s predefined macros and <intrin.h>: forced into every source of the "ms" builds */
#include <stdint.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <limits.h>
#include <assert.h>
#include <time.h>
#include <fcntl.h>
#include <unistd.h>
#ifndef SHIM_MS
#define SHIM_MS
static inline uint64_t shim_umul128(uint64_t a, uint64_t b, uint64_t *hi) { unsigned __int128 r = (unsigned __int128)a * b; *hi = (uint64_t)(r >> 64); return (uint64_t)r; }
static inline uint64_t shim_udiv128(uint64_t hi, uint64_t lo, uint64_t d, uint64_t *rem) { uint64_t q, r; __asm__("divq %4" : "=a"(q), "=d"(r) : "a"(lo), "d"(hi), "r"(d) : "cc"); *rem = r; return q; }
#define _umul128 shim_umul128
#define _udiv128 shim_udiv128
#undef __SIZEOF_INT128__
#ifndef SHIM_MS_WIN32
#define _M_X64 100
#endif
#define _MSC_VER SHIM_MS_VER
#endif
