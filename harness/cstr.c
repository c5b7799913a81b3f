/* C27-C30: string utilities on every text up to SLEN characters. */
#include "vh.h"
#include "embc/cstr.h"

#ifndef SLEN
#define SLEN 6
#endif

/* Any text of at most n characters in s[n+1]; bytes past the end arbitrary. */
static unsigned nd_text(char * s, unsigned n) {
    unsigned len = n;
    ND_BYTES(s, n);
    s[n] = 0;
    for (unsigned i = n; i-- > 0;) {
        if (s[i] == 0) { len = i; }
    }
    return len;
}

static bool ref_space(char c) { return (c == ' ') || (c == '\t') || (c == '\n') || (c == '\v') || (c == '\f') || (c == '\r'); }
static bool ref_digit(char c) { return (c >= '0') && (c <= '9'); }
static int ref_hex(char c) {
    switch (c) {
        case '0': case '1': case '2': case '3': case '4': case '5': case '6': case '7': case '8': case '9': return c - '0';
        case 'a': case 'A': return 10; case 'b': case 'B': return 11; case 'c': case 'C': return 12;
        case 'd': case 'D': return 13; case 'e': case 'E': return 14; case 'f': case 'F': return 15;
        default: return -1;
    }
}
static char ref_upper(char c) {
    uint8_t u = (uint8_t) c;
    return ((u >= 97) && (u <= 122)) ? (char) (u & 0xdf) : c;
}

/* ---------------------------------------------------------------- C27 */

void h_cstr_copy(void) {
    char src[SLEN + 1], tgt[SLEN + 4], before[SLEN + 4];
    unsigned len = nd_text(src, SLEN);
    ND_BYTES(tgt, sizeof(tgt));
    memcpy(before, tgt, sizeof(tgt));
    unsigned size = nd_below8(SLEN + 3);
    bool null_src = nd_bool();
    int rc = embc_cstr_copy(tgt, null_src ? NULL : src, (embc_size_t) size);
    if (null_src) { len = 0; }
    if (size == 0) {
        CHECK(rc == -1, "a copy into nothing is an error");
    } else {
        unsigned n = (len < size) ? len : size - 1;
        CHECK(rc == ((len < size) ? 0 : 1), "the copy tells whether it was truncated");
        for (unsigned i = 0; i < SLEN; ++i) {
            CHECK((i >= n) || (tgt[i] == src[i]), "the copy has the source characters");
        }
        CHECK(tgt[n] == 0, "the copy is terminated");
    }
    for (unsigned i = 0; i < sizeof(tgt); ++i) {
        CHECK((i < size) || (tgt[i] == before[i]), "the copy writes only inside the destination");
    }
    CHECK(embc_cstr_copy(NULL, src, 3) == -1, "a copy to NULL is an error");
    WITNESS();
}

/* exact-size objects: any read or write outside is a memory violation */
void h_cstr_copy_exact(void) {
    char src[SLEN + 1];
    char tgt[4];
    unsigned len = nd_text(src, SLEN);
    int rc = embc_cstr_copy(tgt, src, 4);
    CHECK(rc == (len > 3), "the copy tells whether it was truncated");
    CHECK((len > 3) ? tgt[3] == 0 : tgt[len] == 0, "the copy is terminated");
    int rc2 = embc_cstr_array_copy(tgt, src);
    CHECK(rc2 == rc, "the array copy uses the array size");
    CHECK(embc_cstr_copy(tgt, src, 1) == (len > 0), "a copy into one byte");
    CHECK(tgt[0] == 0, "a copy into one byte is an empty text");
    WITNESS();
}

void h_cstr_casecmp(void) {
    char a[SLEN + 1], b[SLEN + 1];
    unsigned la = nd_text(a, SLEN), lb = nd_text(b, SLEN);
    int rc = embc_cstr_casecmp(a, b);
    int expect = 0;
    bool ascii = true;
    for (unsigned i = 0; i <= SLEN; ++i) {
        if (expect == 0) {
            int ca = (i < la) ? (uint8_t) ref_upper(a[i]) : -1, cb = (i < lb) ? (uint8_t) ref_upper(b[i]) : -1;
            if (ca != cb) {
                expect = (ca < cb) ? -1 : 1;
                ascii = (ca < 128) && (cb < 128);
            }
        }
    }
    CHECK((rc == 0) == (expect == 0), "texts compare equal exactly when they differ only in case");
    CHECK(!ascii || (rc == expect), "the order is that of the first differing character");
    CHECK((rc == -1) || (rc == 0) || (rc == 1), "the comparison gives -1, 0 or 1");
    CHECK(embc_cstr_casecmp(b, a) == -rc, "swapping the texts negates the comparison");
    CHECK(embc_cstr_casecmp(NULL, b) == -1, "NULL compares below");
    CHECK(embc_cstr_casecmp(a, NULL) == 1, "NULL compares below");
    WITNESS();
}

void h_cstr_starts_with(void) {
    char s[SLEN + 1], p[SLEN + 1];
    unsigned ls = nd_text(s, SLEN), lp = nd_text(p, SLEN);
    char const * r = embc_cstr_starts_with(s, p);
    bool match = lp <= ls;
    for (unsigned i = 0; i < SLEN; ++i) {
        if ((i < lp) && (i < ls) && (s[i] != p[i])) { match = false; }
    }
    CHECK((r != NULL) == match, "a prefix is recognized exactly when it is one");
    CHECK(!match || (r == s + lp), "the result is the text after the prefix");
    CHECK(embc_cstr_starts_with(s, NULL) == s, "no prefix matches everything");
    CHECK(embc_cstr_starts_with(NULL, p) == NULL, "NULL has no prefix");
    WITNESS();
}

/* ---------------------------------------------------------------- C28 */

enum num_e { N_LEAD, N_SIGN, N_ZERO, N_X, N_HEX, N_DEC, N_TRAIL, N_BAD };

/* Recognizes a number; *bad_x is set for a 0X prefix, which is not documented. */
static bool ref_number(char const * s, unsigned n, bool sign_ok, bool * neg, uint64_t * value, bool * big_x) {
    enum num_e st = N_LEAD;
    uint64_t v = 0;
    *neg = false;
    *big_x = false;
    for (unsigned i = 0; i <= n; ++i) {
        char c = s[i];
        if (c == 0) { break; }
        bool over = (v >> 36) != 0;
        switch (st) {
            case N_LEAD:
                if (ref_space(c)) { break; }
                if (sign_ok && ((c == '-') || (c == '+'))) { *neg = (c == '-'); st = N_SIGN; break; }
                /* FALLTHROUGH */
            case N_SIGN:
                if (c == '0') { st = N_ZERO; } else if (ref_digit(c)) { v = c - '0'; st = N_DEC; } else { st = N_BAD; }
                break;
            case N_ZERO:
                if (c == 'x') { st = N_X; break; }
                if (c == 'X') { *big_x = true; }
                /* FALLTHROUGH */
            case N_DEC:
                if (ref_digit(c)) { v = over ? v : v * 10 + (uint64_t) (c - '0'); st = N_DEC; }
                else { st = ref_space(c) ? N_TRAIL : N_BAD; }
                break;
            case N_X:
                if (ref_hex(c) < 0) { st = N_BAD; break; }
                v = (uint64_t) ref_hex(c);
                st = N_HEX;
                break;
            case N_HEX:
                if (ref_hex(c) >= 0) { v = over ? v : v * 16 + (uint64_t) ref_hex(c); }
                else { st = ref_space(c) ? N_TRAIL : N_BAD; }
                break;
            case N_TRAIL:
                if (!ref_space(c)) { st = N_BAD; }
                break;
            default: break;
        }
    }
    *value = v;
    return (st == N_ZERO) || (st == N_DEC) || (st == N_HEX) || (st == N_TRAIL);
}

static void check_number(char const * s, unsigned n) {
    bool neg, big_x;
    uint64_t v;
#if !defined(NUM_I32)
    uint32_t u0 = nd_u32(), u = u0;
    bool ok = ref_number(s, n, false, &neg, &v, &big_x);
    ok = ok && (v <= 0xffffffffu);
    if (!big_x) {
        int rc = embc_cstr_to_u32(s, &u);
        CHECK((rc == 0) == ok, "text converts exactly when it is a number that fits 32 bits");
        CHECK(u == (ok ? (uint32_t) v : u0), "the value is that of the text, or unchanged on error");
    }
#else
    int32_t i0 = nd_i32(), x = i0;
    bool sok = ref_number(s, n, true, &neg, &v, &big_x);
    sok = sok && (v <= (neg ? 0x80000000u : 0x7fffffffu));
    if (!big_x) {
        int rc = embc_cstr_to_i32(s, &x);
        CHECK((rc == 0) == sok, "text converts exactly when it is a number that fits signed 32 bits");
        CHECK((int64_t) x == (sok ? (neg ? -(int64_t) v : (int64_t) v) : (int64_t) i0), "the signed value is that of the text, or unchanged on error");
    }
#endif
}

void h_cstr_num(void) {
    char s[SLEN + 1];
    (void) nd_text(s, SLEN);
    check_number(s, SLEN);
    WITNESS();
}

/* number of ND digits, to reach the range limits */
#ifndef ND
#define ND 10
#endif
#ifndef PRE
#define PRE ""
#endif
#ifndef POST
#define POST ""
#endif
#ifndef HEXD
#define HEXD 0
#endif
void h_cstr_num_range(void) {
    char s[24];
    unsigned n = 0;
    for (; n < sizeof(PRE) - 1; ++n) { s[n] = PRE[n]; }
    for (unsigned i = 0; i < ND; ++i, ++n) {
        s[n] = (char) nd_u8();
        ASSUME(HEXD ? (ref_hex(s[n]) >= 0) : ref_digit(s[n]));
    }
    for (unsigned i = 0; i < sizeof(POST) - 1; ++n, ++i) { s[n] = POST[i]; }
    s[n] = 0;
    check_number(s, n);
    WITNESS();
}

void h_cstr_num_null(void) {
    uint32_t u = nd_u32(), u0 = u;
    int32_t i = nd_i32(), i0 = i;
    CHECK(embc_cstr_to_u32(NULL, &u) && (u == u0), "NULL text is an error");
    CHECK(embc_cstr_to_i32(NULL, &i) && (i == i0), "NULL text is an error");
    CHECK(embc_cstr_to_i32s(NULL, 2, &i) && (i == i0), "NULL text is an error");
    CHECK(embc_cstr_to_u32("1", NULL), "NULL value is an error");
    CHECK(embc_cstr_to_i32("1", NULL), "NULL value is an error");
    WITNESS();
}

/* ---------------------------------------------------------------- C29 */

#ifndef EXPMAX
#define EXPMAX 11
#endif

/* 0: not a number; value is exact unless it exceeds the range (then > 2^32). */
static bool ref_fixed(char const * s, unsigned n, unsigned exponent, int64_t * value) {
    int st = 0; /* 0 leading, 1 sign, 2 integer, 3 fraction, 4 trailing, 5 bad */
    uint64_t v = 0;
    unsigned frac = 0, digits = 0;
    bool neg = false;
    for (unsigned i = 0; i <= n; ++i) {
        char c = s[i];
        if (c == 0) { break; }
        if (ref_digit(c) && (st <= 3)) {
            ++digits;
            if (st < 2) { st = 2; }
            if ((st == 2) || (frac < exponent)) {
                if (v < (1ull << 40)) { v = v * 10 + (uint64_t) (c - '0'); }
                if (st == 3) { ++frac; }
            }
        } else if ((c == '.') && (st <= 2)) {
            st = 3;
        } else if (ref_space(c)) {
            if (st != 0) { st = ((st == 2) || (st == 3) || (st == 4)) ? 4 : 5; }
        } else if (((c == '-') || (c == '+')) && (st == 0)) {
            st = 1;
            neg = (c == '-');
        } else {
            st = 5;
        }
        if (st == 5) { return false; }
    }
    for (unsigned i = 0; i < EXPMAX; ++i) {
        if ((i + frac < exponent) && (v < (1ull << 40))) { v *= 10; }
    }
    *value = neg ? -(int64_t) v : (int64_t) v;
    return digits != 0;
}

#ifndef EXPO
#define EXPO 2
#endif

static void check_fixed(char const * s, unsigned n, unsigned exponent) {
    int64_t v = 0;
    int32_t x0 = nd_i32(), x = x0;
    bool ok = ref_fixed(s, n, exponent, &v);
    ok = ok && (v >= INT32_MIN) && (v <= INT32_MAX);
    int rc = embc_cstr_to_i32s(s, (int32_t) exponent, &x);
    CHECK((rc == 0) == ok, "text converts exactly when it is a decimal number whose scaled value fits");
    CHECK((int64_t) x == (ok ? v : (int64_t) x0), "the value is the scaled decimal value truncated, or unchanged on error");
}

void h_cstr_fixed(void) {
    char s[SLEN + 1];
    (void) nd_text(s, SLEN);
    check_fixed(s, SLEN, EXPO);
    WITNESS();
}

#ifndef DOT
#define DOT 5
#endif
void h_cstr_fixed_range(void) {
    char s[24];
    unsigned n = 0;
    for (; n < sizeof(PRE) - 1; ++n) { s[n] = PRE[n]; }
    for (unsigned i = 0; i < ND; ++i) {
        if (i == DOT) { s[n++] = '.'; }
        s[n] = (char) nd_u8();
        ASSUME(ref_digit(s[n]));
        ++n;
    }
    for (unsigned i = 0; i < sizeof(POST) - 1; ++n, ++i) { s[n] = POST[i]; }
    s[n] = 0;
    check_fixed(s, n, EXPO);
    WITNESS();
}

void h_cstr_fixed_args(void) {
    int32_t x0 = nd_i32(), x = x0;
    int32_t e = nd_i32();
    ASSUME(e < 0);
    CHECK(embc_cstr_to_i32s("1.5", e, &x) && (x == x0), "a negative exponent is an error");
    WITNESS();
}

/* ---------------------------------------------------------------- C30 */

static bool same(char const * a, char const * b) {
    for (unsigned i = 0;; ++i) {
        if (a[i] != b[i]) { return false; }
        if (!a[i]) { return true; }
    }
}

void h_cstr_index(void) {
    char t0[3], t1[3], t2[3], s[4];
    (void) nd_text(t0, 2); (void) nd_text(t1, 2); (void) nd_text(t2, 2); (void) nd_text(s, 3);
    unsigned count = nd_below8(4);
    char const * table[4] = {t0, t1, t2, NULL};
    for (unsigned i = 0; i < 4; ++i) { if (i >= count) { table[i] = NULL; } }
    int i0 = (int) nd_u32(), idx = i0;
    int rc = embc_cstr_to_index(s, table, &idx);
    int expect = -1;
    for (unsigned i = 3; i-- > 0;) {
        if ((i < count) && same(s, (i == 0) ? t0 : ((i == 1) ? t1 : t2))) { expect = (int) i; }
    }
    CHECK((rc == 0) == (expect >= 0), "a keyword is found exactly when it is in the table");
    CHECK((rc == 0) || (rc == 1), "an unknown keyword is reported");
    CHECK(idx == ((expect >= 0) ? expect : i0), "the index is that of the first entry equal to the text, or unchanged");
    int z = i0;
    CHECK(embc_cstr_to_index(NULL, table, &z) && embc_cstr_to_index(s, NULL, &z) && embc_cstr_to_index(s, table, NULL) && (z == i0), "missing arguments are errors");
    WITNESS();
}

/* true/false words by length, compared through ref_upper */
static bool is_word(char const * s, char const * w) {
    for (unsigned i = 0;; ++i) {
        if (ref_upper(s[i]) != w[i]) { return false; }
        if (!w[i]) { return true; }
    }
}

void h_cstr_bool(void) {
    char s[SLEN + 1];
    (void) nd_text(s, SLEN);
    bool b0 = nd_bool(), b = b0;
    bool t = is_word(s, "TRUE") || is_word(s, "ON") || is_word(s, "1") || is_word(s, "ENABLE");
    bool f = is_word(s, "FALSE") || is_word(s, "OFF") || is_word(s, "0") || is_word(s, "DISABLE");
    int rc = embc_cstr_to_bool(s, &b);
    CHECK((rc == 0) == (t || f), "a text is a boolean exactly when it is one of the documented words");
    CHECK(b == ((t || f) ? t : b0), "the boolean is that of the word, or unchanged");
    CHECK(embc_cstr_to_bool(NULL, &b) && embc_cstr_to_bool(s, NULL), "missing arguments are errors");
    WITNESS();
}

void h_cstr_upper(void) {
    char s[SLEN + 1], before[SLEN + 1];
    unsigned len = nd_text(s, SLEN);
    memcpy(before, s, sizeof(s));
    CHECK(embc_cstr_toupper(s) == 0, "every text can be converted to upper case");
    for (unsigned i = 0; i <= SLEN; ++i) {
        CHECK(s[i] == ((i < len) ? ref_upper(before[i]) : before[i]), "exactly the lower case letters change");
    }
    CHECK(embc_cstr_toupper(NULL) != 0, "NULL is an error");
    WITNESS();
}

void h_cstr_hex(void) {
    char c = (char) nd_u8();
    uint8_t v = nd_u8();
    int h = ref_hex(c);
    CHECK(embc_cstr_hex_to_u4(c) == ((h < 0) ? 0 : h), "hex characters give their value, others 0");
    CHECK(embc_cstr_u4_to_hex(v) == ((v < 16) ? "0123456789ABCDEF"[v & 15] : '0'), "values give their hex character, others 0");
    if (v < 16) { CHECK(embc_cstr_hex_to_u4(embc_cstr_u4_to_hex(v)) == v, "hex conversion is inverse to its counterpart"); }
    if (h >= 0) { CHECK(embc_cstr_u4_to_hex(embc_cstr_hex_to_u4(c)) == ref_upper(c), "hex conversion is inverse to its counterpart"); }
    WITNESS();
}
