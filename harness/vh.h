/* Harness support: the same harness source is encoded by CBMC and compiled
 * natively (sanitizers on) to replay a solver assignment on the real code. */
#ifndef VH_H_
#define VH_H_

#include <stdint.h>
#include <stdbool.h>
#include <stddef.h>
#include <stdlib.h>
#include <string.h>
#include "embc/platform.h"

/* 0: embc_fatal is a violation; 1: it is the documented outcome (path ends);
 * 3: it is counted and returns (contract macros only). */
extern int vh_fatal_mode;
extern int vh_fatal_count;
extern int vh_live;              /* live allocations made through embc_alloc */
extern int vh_alloc_count;
extern int vh_free_count;

void vh_fatal(char const * msg);
void * vh_alloc(embc_size_t sz);
void vh_free(void * p);
void vh_init(void);              /* installs the allocator */

#ifdef VH_CBMC
uint8_t  nondet_vh_u8(void);
uint16_t nondet_vh_u16(void);
uint32_t nondet_vh_u32(void);
uint64_t nondet_vh_u64(void);
static inline uint8_t  nd_u8(void)  { uint8_t  v = nondet_vh_u8();  __CPROVER_input("nd", v); return v; }
static inline uint16_t nd_u16(void) { uint16_t v = nondet_vh_u16(); __CPROVER_input("nd", v); return v; }
static inline uint32_t nd_u32(void) { uint32_t v = nondet_vh_u32(); __CPROVER_input("nd", v); return v; }
static inline uint64_t nd_u64(void) { uint64_t v = nondet_vh_u64(); __CPROVER_input("nd", v); return v; }
#define ASSUME(c) __CPROVER_assume(c)
#define CHECK(c, msg) __CPROVER_assert((c), "PROP: " msg)
#define WITNESS() __CPROVER_assert(0, "WITNESS")
#else
uint64_t vh_next(void);
void vh_assume_failed(char const * what);
void vh_check_failed(char const * what, char const * file, int line);
void vh_witness(void);
static inline uint8_t  nd_u8(void)  { return (uint8_t) vh_next(); }
static inline uint16_t nd_u16(void) { return (uint16_t) vh_next(); }
static inline uint32_t nd_u32(void) { return (uint32_t) vh_next(); }
static inline uint64_t nd_u64(void) { return (uint64_t) vh_next(); }
#define ASSUME(c) do { if (!(c)) { vh_assume_failed(#c); } } while (0)
#define CHECK(c, msg) do { if (!(c)) { vh_check_failed(msg, __FILE__, __LINE__); } } while (0)
#define WITNESS() vh_witness()
#endif

static inline int32_t nd_i32(void) { return (int32_t) nd_u32(); }
static inline int64_t nd_i64(void) { return (int64_t) nd_u64(); }
static inline bool nd_bool(void) { uint8_t v = nd_u8(); ASSUME(v <= 1); return v != 0; }
/* value in [0, n) */
static inline uint32_t nd_below(uint32_t n) { uint32_t v = nd_u32(); ASSUME(v < n); return v; }
/* value in [0, n), 8-bit encoding */
static inline uint8_t nd_below8(uint8_t n) { uint8_t v = nd_u8(); ASSUME(v < n); return v; }
#define ND_BYTES(ptr, n) do { for (unsigned vh_i_ = 0; vh_i_ < (unsigned) (n); ++vh_i_) { \
    ((uint8_t *) (ptr))[vh_i_] = nd_u8(); } } while (0)

/* Run a statement that must end in embc_fatal. */
#define EXPECT_FATAL(stmt, msg) do { vh_fatal_mode = 1; stmt; CHECK(0, msg); } while (0)

#ifndef HARNESS
#error "HARNESS must name the entry function"
#endif

#endif
