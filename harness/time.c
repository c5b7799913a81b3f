/* Time conversions against their definition, by multiply-back inequalities. */
#include "vh.h"
#include "embc/time.h"

#ifndef XBITS
#define XBITS 33
#endif
#ifndef FREQ
#define FREQ 1000
#endif
#define ONE (((int64_t) 1) << 30)

/* time to ticks: nearest (ties up), up, down; |x * z| must fit */
void h_time_to_counter(void) {
    int64_t x = nd_i64();
    int64_t z = FREQ;
    int64_t lim = (INT64_MAX - ONE) / FREQ;
    ASSUME(x <= lim && x >= -lim);
    int64_t p = x * z;
    int64_t n = EMBC_TIME_TO_COUNTER(x, z);
    int64_t u = EMBC_TIME_TO_COUNTER_ROUND_UP(x, z);
    int64_t d = EMBC_TIME_TO_COUNTER_ROUND_DOWN(x, z);
    int64_t fl = p / ONE;            /* floor and remainder of p / 2^30, independent of shifts */
    int64_t rem = p % ONE;
    if (rem < 0) {
        rem += ONE;
        fl -= 1;
    }
    CHECK(d == fl, "round down is the floor");
    CHECK(u == fl + (rem != 0), "round up is the ceiling");
    CHECK(n == fl + (rem >= (ONE / 2)), "conversion rounds to nearest");
    WITNESS();
}

void h_time_units(void) {
    int64_t x = nd_i64();
    ASSUME(x < (((int64_t) 1) << 62) && x > -(((int64_t) 1) << 62));
    CHECK(EMBC_TIME_TO_SECONDS(x) == EMBC_TIME_TO_COUNTER(x, 1), "seconds");
    int64_t s = EMBC_TIME_TO_SECONDS(x);
    CHECK(s * ONE - x <= ONE / 2 && x - s * ONE < ONE / 2 + 1, "seconds within half a second");
    uint32_t sec = nd_u32();
    CHECK(EMBC_SECONDS_TO_TIME(sec) == (int64_t) sec * ONE, "seconds to time is exact");
    CHECK(EMBC_TIME_TO_SECONDS(EMBC_SECONDS_TO_TIME(sec)) == sec, "whole seconds survive a round trip");
    CHECK(EMBC_TIME_SECOND == ONE && EMBC_TIME_MINUTE == 60 * ONE && EMBC_TIME_HOUR == 3600 * ONE
          && EMBC_TIME_DAY == 86400 * ONE && EMBC_TIME_WEEK == 604800 * ONE && EMBC_TIME_YEAR == 31536000 * ONE
          && EMBC_TIME_MONTH == 2628000 * ONE, "units of time");
    CHECK(EMBC_TIME_MILLISECOND == 1073741 && EMBC_TIME_MICROSECOND == 1073 && EMBC_TIME_NANOSECOND == 1, "sub-second units");
    CHECK(EMBC_TIME_MAX == INT64_MAX && EMBC_TIME_MIN == INT64_MIN, "range");
    WITNESS();
}

void h_time_unit_names(void) {
    int64_t x = nd_i64();
    int64_t lim = INT64_MAX / 2000000000;
    ASSUME(x <= lim && x >= -lim);
    CHECK(EMBC_TIME_TO_MILLISECONDS(x) == EMBC_TIME_TO_COUNTER(x, 1000), "milliseconds are 1/1000 s");
    CHECK(EMBC_TIME_TO_MICROSECONDS(x) == EMBC_TIME_TO_COUNTER(x, 1000000), "microseconds are 1/1000000 s");
    CHECK(EMBC_TIME_TO_NANOSECONDS(x) == EMBC_TIME_TO_COUNTER(x, 1000000000ll), "nanoseconds are 1/1000000000 s");
    uint32_t t = nd_u32();
    CHECK(EMBC_MILLISECONDS_TO_TIME(t) == EMBC_COUNTER_TO_TIME(t, 1000), "from milliseconds");
    CHECK(EMBC_MICROSECONDS_TO_TIME(t) == EMBC_COUNTER_TO_TIME(t, 1000000), "from microseconds");
    CHECK(EMBC_NANOSECONDS_TO_TIME(t) == EMBC_COUNTER_TO_TIME(t, 1000000000ll), "from nanoseconds");
    WITNESS();
}

/* ticks to time: truncated */
void h_counter_to_time(void) {
    int64_t x = nd_i64();
    ASSUME(x >= 0 && x < (((int64_t) 1) << XBITS));
    int64_t z = FREQ;
    int64_t t = EMBC_COUNTER_TO_TIME(x, FREQ);
    CHECK(t == (x * ONE) / z, "ticks to time truncates the exact quotient");
    WITNESS();
}

/* and back to the same ticks */
void h_tick_round_trip(void) {
    int64_t x = nd_i64();
    ASSUME(x >= 0 && x < (((int64_t) 1) << XBITS));
    int64_t t = EMBC_COUNTER_TO_TIME(x, FREQ);
    int64_t back = EMBC_TIME_TO_COUNTER(t, FREQ);
    if (FREQ <= 1000000) {
        CHECK(back == x, "whole ticks survive a round trip");
    } else {
        CHECK(back == x || back == x - 1, "nanoseconds survive a round trip within one");
    }
    WITNESS();
}

void h_time_abs(void) {
    int64_t t = nd_i64();
    ASSUME(t != INT64_MIN);
    int64_t a = EMBC_TIME_ABS(t);
    CHECK(a >= 0 && (a == t || a == -t), "absolute value");
    WITNESS();
}

void h_time_f64(void) {
    int64_t t = nd_i64();
    ASSUME(t < (((int64_t) 1) << 53) && t > -(((int64_t) 1) << 53));
    double d = EMBC_TIME_TO_F64(t);
    CHECK(EMBC_F64_TO_TIME(d) == t, "times below 2^53 survive a round trip through double");
    int32_t s = nd_i32();
    CHECK(EMBC_TIME_TO_F64(((int64_t) s) * ONE) == (double) s, "double time is in seconds");
    CHECK(EMBC_F64_TO_TIME((double) s) == ((int64_t) s) * ONE, "whole seconds convert exactly");
    float f = EMBC_TIME_TO_F32(((int64_t) s) * ONE);
    CHECK(f == (float) s, "float time is in seconds");
    int64_t q = ((int64_t) s) * (ONE / 16);
    float g = (float) (s / 16.0);
    if ((double) g * 16.0 == (double) s) {
        CHECK(EMBC_F32_TO_TIME(g) == q, "float seconds convert exactly");
    }
    WITNESS();
}
