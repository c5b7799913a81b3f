/* Bit helpers, arithmetic macros, contracts, name tables. */
#undef EMBC_LOG_GLOBAL_LEVEL
static int cfg_global_;
static int cfg_local_;
static int last_level_;
static int emit_count_;
#define EMBC_LOG_GLOBAL_LEVEL cfg_global_
#define EMBC_LOG_LEVEL cfg_local_
#define EMBC_LOG_PRINTF(level, format, ...) do { last_level_ = (level); ++emit_count_; } while (0)
#include "vh.h"
#include "embc.h"
#include "embc/dbc.h"

/* ---- C38 ------------------------------------------------------------- */

void h_clz(void) {
    uint32_t x = nd_u32();
    uint32_t n = embc_clz(x);
    if (x == 0) {
        CHECK(n == 32, "leading zero count of zero is 32");
    } else {
        CHECK(n < 32, "leading zero count of a non-zero value is below 32");
        CHECK((x >> (31 - n)) == 1, "the bit after the counted zeros is the highest set bit");
    }
    WITNESS();
}

void h_pow2(void) {
    uint32_t x = nd_u32();
    ASSUME((x >= 1) && (x <= 0x80000000U));
    uint32_t p = embc_upper_power_of_two(x);
    CHECK(p != 0 && (p & (p - 1)) == 0, "the result is a power of two");
    CHECK(p >= x, "the result is not below the argument");
    CHECK((p >> 1) < x, "the result is the smallest such power of two");
    WITNESS();
}

struct outer_s {
    uint8_t a;
    uint32_t b;
    uint64_t c[3];
    uint8_t d;
};

void h_cdef(void) {
    int32_t x = nd_i32();
    int32_t lo = nd_i32();
    int32_t hi = nd_i32();
    ASSUME(lo <= hi);
    int32_t r = EMBC_RESTRICT_TO_RANGE(x, lo, hi);
    CHECK(r >= lo && r <= hi, "restrict to range stays in range");
    CHECK(!(x >= lo && x <= hi) || r == x, "restrict to range keeps values in range");
    CHECK(!(x < lo) || r == lo, "restrict to range gives the minimum below the range");
    CHECK(!(x > hi) || r == hi, "restrict to range gives the maximum above the range");
    CHECK(EMBC_SIGNUM(x) == (x < 0 ? -1 : (x > 0 ? 1 : 0)), "signum");
    struct outer_s o;
    CHECK(EMBC_CONTAINER_OF(&o.b, struct outer_s, b) == &o, "container of a member (b)");
    CHECK(EMBC_CONTAINER_OF(&o.c[0], struct outer_s, c) == &o, "container of a member (c)");
    CHECK(EMBC_CONTAINER_OF(&o.d, struct outer_s, d) == &o, "container of a member (d)");
    CHECK(EMBC_ARRAY_SIZE(o.c) == 3, "array size");
    WITNESS();
}

#ifndef RU_X
#define RU_X 512
#endif
#ifndef RU_M
#define RU_M 40
#endif
static void round_up_check(int32_t x, int32_t m) {
    int32_t r = EMBC_ROUND_UP_TO_MULTIPLE(x, m);
    CHECK(r % m == 0, "round up gives a multiple");
    if (x >= 0) {
        CHECK(r >= x && r - x < m, "round up of a positive value is the next multiple");
    } else {
        CHECK(r <= x && x - r < m, "round up of a negative value rounds away from zero");
    }
}

void h_round_up(void) {
    int16_t x = (int16_t) nd_u16();
    int16_t m = (int16_t) nd_u16();
    ASSUME(m >= 1 && m <= RU_M);
    ASSUME(x > -RU_X && x < RU_X);
    round_up_check(x, m);
    WITNESS();
}

void h_round_up_const(void) {
    int32_t x = nd_i32();
    ASSUME(x > -(1 << 20) && x < (1 << 20));
    switch (nd_below(5)) {
        case 0: round_up_check(x, 1); break;
        case 1: round_up_check(x, 8); break;
        case 2: round_up_check(x, 10); break;
        case 3: round_up_check(x, 128); break;
        default: round_up_check(x, 4096); break;
    }
    WITNESS();
}

static int32_t roe(int32_t x) { EMBC_RETURN_ON_ERROR(x); return 0; }
static int32_t roem(int32_t x) { EMBC_RETURN_ON_ERROR_MSG(x, "m"); return 0; }
static int32_t eoe(int32_t x) { EMBC_EXIT_ON_ERROR(x); return 0; exit: return 7; }
static int32_t ewe(int32_t x) { int32_t v = 0; EMBC_EXIT_WITH_ERROR(v, x); return 0; exit: return v; }

void h_on_error(void) {
    int32_t x = nd_i32();
    CHECK(roe(x) == x, "return on error returns the error and falls through on zero");
    CHECK(roem(x) == x, "return on error with message returns the error and falls through on zero");
    CHECK(eoe(x) == (x ? 7 : 0), "exit on error leaves exactly on error");
    CHECK(ewe(x) == x, "exit with error stores the error");
    WITNESS();
}

/* ---- C39 ------------------------------------------------------------- */

#define ARG1(name, macro) static int name(int x) { macro(x); return 0; }
ARG1(a_true, EMBC_ARGCHK_TRUE)
ARG1(a_false, EMBC_ARGCHK_FALSE)
ARG1(a_gt0, EMBC_ARGCHK_GT_ZERO)
ARG1(a_gte0, EMBC_ARGCHK_GTE_ZERO)
ARG1(a_ne0, EMBC_ARGCHK_NE_ZERO)
ARG1(a_lt0, EMBC_ARGCHK_LT_ZERO)
ARG1(a_lte0, EMBC_ARGCHK_LTE_ZERO)
ARG1(a_req, EMBC_ARGCHK_REQUIRE)
static int a_nn(void * p) { EMBC_ARGCHK_NOT_NULL(p); return 0; }
static int a_assert(int x) { EMBC_ARGCHK_ASSERT(x, "msg"); return 0; }
static int a_range(int x, int lo, int hi) { EMBC_ARGCHK_RANGE_INT(x, lo, hi); return 0; }

void h_argchk(void) {
    int x = nd_i32();
    int lo = nd_i32();
    int hi = nd_i32();
    int dummy;
    const int E = EMBC_ERROR_PARAMETER_INVALID;
    CHECK(EMBC_ARGCHK_FAIL_RETURN_CODE_DEFAULT == E, "the default return code is the invalid parameter error");
    CHECK(a_true(x) == (x ? 0 : E), "argument check: true");
    CHECK(a_assert(x) == (x ? 0 : E), "argument check: assert");
    CHECK(a_req(x) == (x ? 0 : E), "argument check: require");
    CHECK(a_false(x) == (x ? E : 0), "argument check: false");
    CHECK(a_gt0(x) == (x > 0 ? 0 : E), "argument check: greater than zero");
    CHECK(a_gte0(x) == (x >= 0 ? 0 : E), "argument check: greater than or equal to zero");
    CHECK(a_ne0(x) == (x != 0 ? 0 : E), "argument check: not zero");
    CHECK(a_lt0(x) == (x < 0 ? 0 : E), "argument check: less than zero");
    CHECK(a_lte0(x) == (x <= 0 ? 0 : E), "argument check: less than or equal to zero");
    CHECK(a_nn(x ? &dummy : 0) == (x ? 0 : E), "argument check: not null");
    CHECK(a_range(x, lo, hi) == ((x >= lo && x <= hi) ? 0 : E), "argument check: range");
    WITNESS();
}

#define RAISES(stmt) (vh_fatal_count = 0, dbc_##stmt, vh_fatal_count)
#define DBC1(name, macro) static int name(int x) { vh_fatal_count = 0; macro(x); return vh_fatal_count; }
#define DBC2(name, macro) static int name(int x, int y) { vh_fatal_count = 0; macro(x, y); return vh_fatal_count; }
DBC1(d_true, EMBC_DBC_TRUE)
DBC1(d_false, EMBC_DBC_FALSE)
DBC1(d_gt0, EMBC_DBC_GT_ZERO)
DBC1(d_gte0, EMBC_DBC_GTE_ZERO)
DBC1(d_lt0, EMBC_DBC_LT_ZERO)
DBC1(d_lte0, EMBC_DBC_LTE_ZERO)
DBC1(d_req, EMBC_DBC_REQUIRE)
DBC1(d_nn, EMBC_DBC_NOT_NULL)
DBC2(d_eq, EMBC_DBC_EQUAL)
DBC2(d_gt, EMBC_DBC_GT)
DBC2(d_gte, EMBC_DBC_GTE)
DBC2(d_ne, EMBC_DBC_NE)
DBC2(d_lt, EMBC_DBC_LT)
DBC2(d_lte, EMBC_DBC_LTE)
static int d_ne0(int x) { vh_fatal_count = 0; EMBC_DBC_NE_ZERO(x); return vh_fatal_count; }
static int d_assert(int x) { vh_fatal_count = 0; EMBC_ASSERT(x); return vh_fatal_count; }
static int d_alloc(void * x) { vh_fatal_count = 0; EMBC_ASSERT_ALLOC(x); return vh_fatal_count; }
static int d_dassert(int x) { vh_fatal_count = 0; EMBC_DBC_ASSERT(x, "m"); return vh_fatal_count; }
static int d_range(int x, int lo, int hi) { vh_fatal_count = 0; EMBC_DBC_RANGE_INT(x, lo, hi); return vh_fatal_count; }

void h_dbc(void) {
    int x = nd_i32();
    int y = nd_i32();
    int z = nd_i32();
    int dummy;
    vh_fatal_mode = 3;
    CHECK(d_true(x) == (x ? 0 : 1), "contract: true");
    CHECK(d_req(x) == (x ? 0 : 1), "contract: require");
    CHECK(d_assert(x) == (x ? 0 : 1), "assert");
    CHECK(d_dassert(x) == (x ? 0 : 1), "contract: assert");
    CHECK(d_nn(x) == (x ? 0 : 1), "contract: not null");
    CHECK(d_alloc(x ? &dummy : 0) == (x ? 0 : 1), "assert allocation");
    CHECK(d_false(x) == (x ? 1 : 0), "contract: false");
    CHECK(d_gt0(x) == (x > 0 ? 0 : 1), "contract: greater than zero");
    CHECK(d_gte0(x) == (x >= 0 ? 0 : 1), "contract: greater than or equal to zero");
    CHECK(d_lt0(x) == (x < 0 ? 0 : 1), "contract: less than zero");
    CHECK(d_lte0(x) == (x <= 0 ? 0 : 1), "contract: less than or equal to zero");
    CHECK(d_ne0(x) == (x != 0 ? 0 : 1), "contract: not zero");
    CHECK(d_eq(x, y) == (x == y ? 0 : 1), "contract: equal");
    CHECK(d_gt(x, y) == (x > y ? 0 : 1), "contract: greater than");
    CHECK(d_gte(x, y) == (x >= y ? 0 : 1), "contract: greater than or equal");
    CHECK(d_ne(x, y) == (x != y ? 0 : 1), "contract: not equal");
    CHECK(d_lt(x, y) == (x < y ? 0 : 1), "contract: less than");
    CHECK(d_lte(x, y) == (x <= y ? 0 : 1), "contract: less than or equal");
    CHECK((d_range(x, y, z) == 0) == (x >= y && x <= z), "contract: range");
    WITNESS();
}

/* ---- C40 ------------------------------------------------------------- */

static const char * const EC_NAMES[] = {
    "SUCCESS", "UNSPECIFIED", "NOT_ENOUGH_MEMORY", "NOT_SUPPORTED", "IO", "PARAMETER_INVALID",
    "INVALID_RETURN_CONDITION", "INVALID_CONTEXT", "INVALID_MESSAGE_LENGTH", "MESSAGE_INTEGRITY",
    "SYNTAX_ERROR", "TIMED_OUT", "FULL", "EMPTY", "TOO_SMALL", "TOO_BIG", "NOT_FOUND",
    "ALREADY_EXISTS", "PERMISSIONS", "BUSY", "UNAVAILABLE", "IN_USE", "CLOSED", "SEQUENCE",
    "ABORTED", "SYNCHRONIZATION"
};
#define EC_N ((int) (sizeof(EC_NAMES) / sizeof(EC_NAMES[0])))

static bool same(const char * a, const char * b) {
    for (int i = 0; i < 80; ++i) {
        if (a[i] != b[i]) {
            return false;
        }
        if (a[i] == 0) {
            return true;
        }
    }
    return false;
}

void h_ec_names(void) {
    int ec = nd_i32();
    const char * n = embc_error_code_name(ec);
    CHECK(n != 0, "every code has a name");
    CHECK(EMBC_ERROR_CODE_COUNT >= EC_N, "the documented codes exist");
    if (ec >= 0 && ec < EC_N) {
        CHECK(same(n, EC_NAMES[ec]), "each defined code maps to its own name");
    } else if (ec < 0 || ec >= EMBC_ERROR_CODE_COUNT) {
        CHECK(same(n, "UNKNOWN"), "undefined codes map to the unknown name");
    }
    WITNESS();
}

void h_ec_descriptions(void) {
    int ec = nd_i32();
    int ec2 = nd_i32();
    const char * d = embc_error_code_description(ec);
    const char * d2 = embc_error_code_description(ec2);
    CHECK(d != 0 && d[0] != 0, "every code has a description");
    bool def = (ec >= 0 && ec < EMBC_ERROR_CODE_COUNT);
    bool def2 = (ec2 >= 0 && ec2 < EMBC_ERROR_CODE_COUNT);
    if (def && def2 && ec != ec2) {
        CHECK(!same(d, d2), "different codes have different descriptions");
    }
    if (!def) {
        CHECK(same(d, "Unknown error"), "undefined codes map to the unknown description");
    } else {
        CHECK(!same(d, "Unknown error"), "defined codes have their own description");
    }
    WITNESS();
}

void h_log_tables(void) {
    int l = nd_i32();
    int k = nd_i32();
    static const char CH[] = "!ACEWNIDDD.";
    ASSUME(l >= 0 && l <= EMBC_LOG_LEVEL_ALL);
    ASSUME(k >= 0 && k <= EMBC_LOG_LEVEL_ALL && k != l);
    CHECK(embc_log_level_str[l] != 0, "every level has a name");
    CHECK(!same(embc_log_level_str[l], embc_log_level_str[k]), "level names are distinct");
    CHECK(embc_log_level_char[l] == CH[l], "every level has its character");
    static const char * const START[] = {
        "EMERG", "ALERT", "CRIT", "ERR", "WARN", "NOTICE", "INFO", "DEBUG", "DEBUG2", "DEBUG3", "ALL"};
    for (int i = 0; START[l][i]; ++i) {
        CHECK(embc_log_level_str[l][i] == START[l][i], "every level maps to its own name");
    }
    WITNESS();
}

void h_log_macros(void) {
    cfg_global_ = nd_i32();
    cfg_local_ = nd_i32();
    int which = nd_below(10);
    emit_count_ = 0;
    last_level_ = -7;
    switch (which) {
        case 0: EMBC_LOG_EMERGENCY("m"); EMBC_LOG_EMERGENCY("%d", 1); break;
        case 1: EMBC_LOG_ALERT("m"); EMBC_LOG_ALERT("%d", 1); break;
        case 2: EMBC_LOG_CRITICAL("m"); EMBC_LOG_CRITICAL("%d", 1); break;
        case 3: EMBC_LOG_ERROR("m"); EMBC_LOG_ERROR("%d", 1); break;
        case 4: EMBC_LOG_WARNING("m"); EMBC_LOG_WARNING("%d", 1); break;
        case 5: EMBC_LOG_NOTICE("m"); EMBC_LOG_NOTICE("%d", 1); break;
        case 6: EMBC_LOG_INFO("m"); EMBC_LOG_INFO("%d", 1); break;
        case 7: EMBC_LOG_DEBUG1("m"); EMBC_LOG_DEBUG1("%d", 1); break;
        case 8: EMBC_LOG_DEBUG2("m"); EMBC_LOG_DEBUG2("%d", 1); break;
        default: EMBC_LOG_DEBUG3("m"); EMBC_LOG_DEBUG3("%d", 1); break;
    }
    bool on = (which <= cfg_global_) && (which <= cfg_local_);
    CHECK(emit_count_ == (on ? 2 : 0), "a message is emitted exactly when its level is enabled");
    CHECK(!on || last_level_ == which, "a message carries its own level");
    WITNESS();
}
