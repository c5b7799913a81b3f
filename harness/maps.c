/* Integer map, string map, hash map: histories against a model. */
#include "vh.h"
#include "embc/collections/intmap.h"
#include "embc/collections/strmap.h"
#include "embc/collections/hashmap.h"
#include "embc/ec.h"

/* the first OCC_N occupancy choices are fixed, so that a space can be split between runs */
#ifndef OCC
#define OCC 0
#endif
#ifndef OCC_N
#define OCC_N 0
#endif
#define OCCUPIED(i) ((i) < OCC_N ? ((OCC >> (i)) & 1) != 0 : nd_bool())

/* ---- integer map ---- */
#ifndef KEYS
#define KEYS 3, 11, -5, 7
#endif
#ifndef NOPS
#define NOPS 2
#endif
static embc_size_t const keys[] = { KEYS };
#define NKEYS ((int) (sizeof(keys) / sizeof(keys[0])))
#define VAL(n) ((void *) (intptr_t) (0x1000 + (n)))
#define JUNK ((void *) (intptr_t) 0x7777)

static struct embc_intmap_s * im;
static void * model[NKEYS];       /* 0: absent */
static int count;

static void im_verify(void) {
    void * v;
    CHECK(embc_intmap_length(im) == count, "length counts the distinct keys");
    for (int i = 0; i < NKEYS; ++i) {
        v = JUNK;
        int rc = embc_intmap_get(im, keys[i], &v);
        if (model[i]) {
            CHECK(rc == 0 && v == model[i], "get returns the value of the last put");
        } else {
            CHECK(rc == EMBC_ERROR_NOT_FOUND && v == 0, "an absent key is not found");
        }
    }
}

static void im_put(int i, void * v) {
    void * old = JUNK;
    CHECK(embc_intmap_put(im, keys[i], v, &old) == 0, "put succeeds");
    CHECK(old == model[i], "put reports the previous value");
    if (!model[i]) {
        ++count;
    }
    model[i] = v;
}

static void im_remove(int i) {
    void * old = JUNK;
    int rc = embc_intmap_remove(im, keys[i], &old);
    if (model[i]) {
        CHECK(rc == 0 && old == model[i], "remove reports the previous value");
        model[i] = 0;
        --count;
    } else {
        CHECK(rc == EMBC_ERROR_NOT_FOUND, "removing an absent key is not found");
    }
}

static void im_end(void) {
    void * v = JUNK;
    embc_size_t k = (embc_size_t) nd_i64();
    im_verify();
    bool known = false;
    for (int i = 0; i < NKEYS; ++i) {
        known = known || k == keys[i];
    }
    if (!known) {
        CHECK(embc_intmap_get(im, k, &v) == EMBC_ERROR_NOT_FOUND && v == 0, "a key never put is not found");
    }
    WITNESS();
    embc_intmap_free(im);
    CHECK(vh_live == 0, "destroying the map releases all its memory");
}

static void im_step(int k);

static void im_choose(int k, uint8_t c, int i) {
    if (i == NKEYS) {
        return;
    }
    if (c == i) {
        im_put(i, VAL(k));
        im_step(k + 1);
    } else if (c == NKEYS + i) {
        im_remove(i);
        im_step(k + 1);
    } else {
        im_choose(k, c, i + 1);
    }
}

static void im_step(int k) {
    CHECK(embc_intmap_length(im) == count, "length counts the distinct keys");
    CHECK(vh_live == 2 + count, "an absent key holds no memory");
    if (k == NOPS) {
        im_end();
        return;
    }
    im_choose(k, nd_below8(2 * NKEYS), 0);
}

static void im_occupy(int i) {
    if (i == NKEYS) {
        im_step(0);
    } else if (OCCUPIED(i)) {
        im_put(i, VAL(100 + i));
        im_occupy(i + 1);
    } else {
        im_occupy(i + 1);
    }
}

void h_intmap(void) {
    vh_init();
    im = embc_intmap_new();
    im_occupy(0);
}

/* arbitrary 64-bit keys */
void h_intmap_any(void) {
    vh_init();
    im = embc_intmap_new();
    embc_size_t a = (embc_size_t) nd_i64(), b = (embc_size_t) nd_i64(), c = (embc_size_t) nd_i64();
    void * old = JUNK;
    void * v = JUNK;
    CHECK(embc_intmap_put(im, a, VAL(1), &old) == 0 && old == 0, "first put");
    CHECK(embc_intmap_put(im, b, VAL(2), &old) == 0 && old == (a == b ? VAL(1) : 0), "put reports the previous value");
    CHECK(embc_intmap_length(im) == (a == b ? 1 : 2), "length counts the distinct keys");
    int rc = embc_intmap_get(im, c, &v);
    if (c == b) {
        CHECK(rc == 0 && v == VAL(2), "get returns the last put");
    } else if (c == a) {
        CHECK(rc == 0 && v == VAL(1), "get returns the last put");
    } else {
        CHECK(rc == EMBC_ERROR_NOT_FOUND && v == 0, "an absent key is not found");
    }
    WITNESS();
#ifdef ANY_REMOVE
    rc = embc_intmap_remove(im, c, &old);
    CHECK((rc == 0) == (c == a || c == b), "remove finds exactly the present keys");
    CHECK(embc_intmap_get(im, c, &v) == EMBC_ERROR_NOT_FOUND && v == 0, "a removed key is not found");
    if (c != a) {
        CHECK(embc_intmap_get(im, a, &v) == 0 && v == (a == b ? VAL(2) : VAL(1)), "other keys stay");
    }
#endif
}

/* growth: NGROW keys of a distribution, put in order */
#ifndef NGROW
#define NGROW 17
#endif
#ifndef DIST
#define DIST 0
#endif
static embc_size_t gkey(int i) {
    switch (DIST) {
        case 0: return i;
        case 1: return 5 + 8 * (embc_size_t) i;                 /* one chain before growth */
        case 2: return -1 - 32 * (embc_size_t) i;               /* one chain after growth, negative */
        case 3: return (i & 1) ? 7 + 64 * i : 31 + 8 * i;
        default: return ((embc_size_t) i << 40) | (i * 3);
    }
}

void h_intmap_grow(void) {
    vh_init();
    im = embc_intmap_new();
    uint8_t pick = nd_below8(NGROW);       /* this one is put twice and then removed */
    void * old;
    void * v;
    int extra = 0;
    for (int i = 0; i < NGROW; ++i) {
        old = JUNK;
        CHECK(embc_intmap_put(im, gkey(i), VAL(i), &old) == 0 && old == 0, "put of a new key");
        CHECK(embc_intmap_length(im) == i + 1, "length counts the distinct keys");
    }
    for (int i = 0; i < NGROW; ++i) {
        CHECK(embc_intmap_get(im, gkey(i), &v) == 0 && v == VAL(i), "every key survives growth");
    }
    (void) extra;
    embc_size_t k = (embc_size_t) nd_i64();
    int rc = embc_intmap_get(im, k, &v);
    bool known = false;
    for (int i = 0; i < NGROW; ++i) {
        if (k == gkey(i)) {
            known = true;
            CHECK(rc == 0 && v == VAL(i), "get returns the last put");
        }
    }
    CHECK(known || (rc == EMBC_ERROR_NOT_FOUND && v == 0), "an absent key is not found");
    for (int i = 0; i < NGROW; ++i) {
        if (i == pick) {
            CHECK(embc_intmap_put(im, gkey(i), VAL(500), &old) == 0 && old == VAL(i), "put reports the previous value");
            CHECK(embc_intmap_length(im) == NGROW, "length counts the distinct keys");
            CHECK(embc_intmap_remove(im, gkey(i), &old) == 0 && old == VAL(500), "remove reports the previous value");
            for (int j = 0; j < NGROW; ++j) {
                rc = embc_intmap_get(im, gkey(j), &v);
                CHECK(i == j ? (rc == EMBC_ERROR_NOT_FOUND && v == 0) : (rc == 0 && v == VAL(j)), "exactly the removed key is gone");
            }
            CHECK(embc_intmap_length(im) == NGROW - 1, "length counts the distinct keys");
            CHECK(vh_live == 2 + NGROW - 1, "a removed entry and an outgrown table hold no memory");
            WITNESS();
            embc_intmap_free(im);
            CHECK(vh_live == 0, "destroying the map releases all its memory");
            return;
        }
    }
}

/* iteration with changes in between */
#ifndef NITER
#define NITER 1
#endif
#ifndef NMOD
#define NMOD 2
#endif
static struct embc_intmap_iterator_s * it[2];
static uint8_t seen[2][NKEYS];
static uint8_t was[NKEYS];              /* present when the iterators were made and ever since */
static bool ended[2];
static uint8_t maybe[NKEYS];            /* put while iterating */

static void it_step(int mods);

static void it_finish(void) {
    WITNESS();
    for (int q = 0; q < NITER; ++q) {
        for (int i = 0; i < NKEYS; ++i) {
            CHECK(!was[i] || seen[q][i] == 1, "every entry that stays is visited exactly once");
        }
        embc_intmap_iterator_free(it[q]);
    }
    im_verify();
    embc_intmap_free(im);
    CHECK(vh_live == 0, "nothing stays allocated");
}

static void it_next(int q) {
    embc_size_t key = 0x5555;
    void * v = JUNK;
    int rc = embc_intmap_iterator_next(it[q], &key, &v);
    if (rc) {
        CHECK(rc == EMBC_ERROR_NOT_FOUND, "the end is reported as not found");
        ended[q] = true;
        CHECK(embc_intmap_iterator_next(it[q], &key, &v) == EMBC_ERROR_NOT_FOUND, "the end stays the end");
        return;
    }
    bool hit = false;
    for (int i = 0; i < NKEYS; ++i) {
        if (key == keys[i]) {
            hit = true;
            CHECK(model[i] != 0 && v == model[i], "the iterator yields present entries with their value");
            CHECK(seen[q][i] == 0, "no entry is visited twice");
            seen[q][i] = 1;
        }
    }
    CHECK(hit, "the iterator yields only keys of the map");
}

static void it_choose(int mods, uint8_t c, int i) {
    if (i == NKEYS) {
        return;
    }
    if (c == i) {
        if (model[i]) {
            im_remove(i);
            was[i] = 0;
            for (int q = 0; q < NITER; ++q) {
                seen[q][i] = 0;
            }
        } else {
            im_put(i, VAL(200 + i));
        }
        it_step(mods + 1);
    } else {
        it_choose(mods, c, i + 1);
    }
}

static void it_step(int mods) {
    if (ended[0] && (NITER == 1 || ended[1])) {
        it_finish();
        return;
    }
    if (mods < NMOD && nd_bool()) {
        it_choose(mods, nd_below8(NKEYS), 0);
    } else if (NITER == 2 && !ended[1] && (ended[0] || nd_bool())) {
        it_next(1);
        it_step(mods);
    } else if (!ended[0]) {
        it_next(0);
        it_step(mods);
    }
}

static void it_occupy(int i) {
    if (i == NKEYS) {
        for (int j = 0; j < NKEYS; ++j) {
            was[j] = model[j] != 0;
        }
        for (int q = 0; q < NITER; ++q) {
            it[q] = embc_intmap_iterator_new(im);
        }
        it_step(0);
    } else if (OCCUPIED(i)) {
        im_put(i, VAL(100 + i));
        it_occupy(i + 1);
    } else {
        it_occupy(i + 1);
    }
}

void h_intmap_iter(void) {
    vh_init();
    im = embc_intmap_new();
    it_occupy(0);
}

/* many entries: iteration before, during (no growth) and after growth */
void h_intmap_iter_grow(void) {
    vh_init();
    im = embc_intmap_new();
    for (int i = 0; i < 14; ++i) {
        embc_intmap_put(im, gkey(i), VAL(i), 0);
    }
    embc_size_t k;
    void * v;
    static uint8_t got[NGROW];
    uint8_t at = nd_below8(15);
    struct embc_intmap_iterator_s * iter = embc_intmap_iterator_new(im);
    for (int n = 0; n < 15; ++n) {
        if (n == at) {
            for (int i = 14; i < NGROW; ++i) {
                embc_intmap_put(im, gkey(i), VAL(i), 0);
            }
            for (int m = n; m < NGROW + 1; ++m) {
                if (embc_intmap_iterator_next(iter, &k, &v)) {
                    break;
                }
                for (int i = 0; i < NGROW; ++i) {
                    if (k == gkey(i)) { ++got[i]; CHECK(v == VAL(i), "value of the key"); }
                }
            }
            CHECK(embc_intmap_iterator_next(iter, &k, &v) == EMBC_ERROR_NOT_FOUND, "iteration ends");
            for (int i = 0; i < NGROW; ++i) {
                CHECK(i < 14 ? got[i] == 1 : got[i] <= 1, "every entry is visited once");
            }
            embc_intmap_iterator_free(iter);
            embc_intmap_put(im, 12345, VAL(7), 0);
            iter = embc_intmap_iterator_new(im);
            for (int i = 0; i < NGROW; ++i) { got[i] = 0; }
            int total = 0;
            while (embc_intmap_iterator_next(iter, &k, &v) == 0) {
                ++total;
                CHECK(total <= NGROW + 1, "iteration ends");
                for (int i = 0; i < NGROW; ++i) {
                    if (k == gkey(i)) { ++got[i]; }
                }
            }
            for (int i = 0; i < NGROW; ++i) {
                CHECK(got[i] == 1, "every entry is visited once after growth");
            }
            CHECK(total == NGROW + 1, "every entry is visited once after growth");
            WITNESS();
            embc_intmap_iterator_free(iter);
            embc_intmap_free(im);
            CHECK(vh_live == 0, "nothing stays allocated");
            return;
        }
        CHECK(embc_intmap_iterator_next(iter, &k, &v) == 0, "entries remain");
        for (int i = 0; i < NGROW; ++i) {
            if (k == gkey(i)) { ++got[i]; CHECK(v == VAL(i), "value of the key"); }
        }
    }
}

/* typed wrappers */
EMBC_INTMAP_DECLARE(tmap, void *)
EMBC_INTMAP_DEFINE_STRUCT(tmap)
#define calloc(n, sz) embc_alloc_clr((n) * (sz))
#define free embc_free
EMBC_INTMAP_DEFINE(tmap, void *)
#undef calloc
#undef free

void h_intmap_typed(void) {
    vh_init();
    struct tmap_s * m = tmap_new();
    void * v = JUNK;
    embc_size_t k = 0;
    uint8_t second = nd_below8(3);
    embc_size_t k2 = second == 0 ? 4 : second == 1 ? 12 : 20;
    CHECK(tmap_put(m, 4, VAL(1), &v) == 0 && v == 0, "typed put");
    CHECK(tmap_put(m, k2, VAL(2), &v) == 0 && v == (k2 == 4 ? VAL(1) : 0), "typed put reports the previous value");
    CHECK(tmap_length(m) == (k2 == 4 ? 1 : 2), "typed length");
    CHECK(tmap_get(m, k2, &v) == 0 && v == VAL(2), "typed get");
    struct tmap_iterator_s * i = tmap_iterator_new(m);
    CHECK(tmap_iterator_next(i, &k, &v) == 0 && k == 4, "typed iteration");
    tmap_iterator_free(i);
    CHECK(tmap_remove(m, k2, &v) == 0 && v == VAL(2), "typed remove");
    CHECK(tmap_get(m, k2, &v) == EMBC_ERROR_NOT_FOUND, "typed get of a removed key");
    WITNESS();
    tmap_free(m);
    CHECK(vh_live == 0, "the typed map releases its memory");
}

/* ---- string map ---- */
#ifndef SKEYS
#define SKEYS "Az", "BY", "", "A"
#endif
static char const * const skeys[] = { SKEYS };
#define NSK ((int) (sizeof(skeys) / sizeof(skeys[0])))
static struct embc_strmap_s * sm;
static void * smodel[NSK];
static int scount;

static void sm_copy(char * dst, int i) {
    int n = 0;
    while (skeys[i][n]) {
        dst[n] = skeys[i][n];
        ++n;
    }
    dst[n] = 0;
}

static void sm_verify(void) {
    void * v;
    CHECK(embc_strmap_length(sm) == scount, "length counts the distinct texts");
    for (int i = 0; i < NSK; ++i) {
        v = JUNK;
        int rc = embc_strmap_get(sm, skeys[i], &v);
        if (smodel[i]) {
            CHECK(rc == 0 && v == smodel[i], "get returns the value of the last put");
        } else {
            CHECK(rc != 0 && v == 0, "an absent text is not found");
        }
    }
}

static void sm_put(int i, void * v) {
    static char k[24];
    void * old = JUNK;
    sm_copy(k, i);
    CHECK(embc_strmap_put(sm, k, v, &old) == 0, "put succeeds");
    CHECK(old == smodel[i], "put reports the previous value");
    k[0] = 'z';       /* the map keeps its own copy of the text */
    k[1] = 0;
    if (!smodel[i]) {
        ++scount;
    }
    smodel[i] = v;
}

static void sm_remove(int i) {
    void * old = JUNK;
    int rc = embc_strmap_remove(sm, skeys[i], &old);
    if (smodel[i]) {
        CHECK(rc == 0 && old == smodel[i], "remove reports the previous value");
        smodel[i] = 0;
        --scount;
    } else {
        CHECK(rc != 0, "removing an absent text is not found");
    }
}

static void sm_step(int k);

static void sm_choose(int k, uint8_t c, int i) {
    if (i == NSK) {
        return;
    }
    if (c == i) {
        sm_put(i, VAL(k));
        sm_step(k + 1);
    } else if (c == NSK + i) {
        sm_remove(i);
        sm_step(k + 1);
    } else {
        sm_choose(k, c, i + 1);
    }
}

#ifndef SMAX
#define SMAX 3
#endif
static void sm_step(int k) {
    CHECK(embc_strmap_length(sm) == scount, "length counts the distinct texts");
    CHECK(vh_live == 2 + scount, "an absent text holds no memory");
    if (k < NOPS) {
        sm_choose(k, nd_below8(2 * NSK), 0);
        return;
    }
    sm_verify();
    WITNESS();
    embc_strmap_free(sm);
    CHECK(vh_live == 0, "destroying the map releases all its memory");
}

static void sm_occupy(int i) {
    if (i == NSK) {
        sm_step(0);
    } else if (OCCUPIED(i)) {
        sm_put(i, VAL(100 + i));
        sm_occupy(i + 1);
    } else {
        sm_occupy(i + 1);
    }
}

void h_strmap(void) {
    vh_init();
    sm = embc_strmap_new();
    sm_occupy(0);
}

/* any texts */
static bool same(char const * a, char const * b) {
    for (int i = 0; i <= SMAX; ++i) {
        if (a[i] != b[i]) {
            return false;
        }
        if (a[i] == 0) {
            return true;
        }
    }
    return true;
}

void h_strmap_any(void) {
    vh_init();
    static char a[SMAX + 1], b[SMAX + 1];
    for (int i = 0; i < SMAX; ++i) {
        a[i] = (char) nd_u8();
        b[i] = (char) nd_u8();
    }
#ifdef FIXED_FIRST
    sm_copy(a, 0);
#endif
    sm = embc_strmap_new();
    void * v = JUNK;
    CHECK(embc_strmap_put(sm, a, VAL(1), &v) == 0 && v == 0, "first put");
    int rc = embc_strmap_get(sm, b, &v);
    if (same(a, b)) {
        CHECK(rc == 0 && v == VAL(1), "the same text finds its value");
    } else {
        CHECK(rc != 0 && v == 0, "a different text is not found");
    }
    WITNESS();
}

/* ---- hash map with any hash values ---- */
#define NHK 3
static embc_size_t hhash[NHK];
static embc_size_t my_hash(void * k) { return hhash[((uint8_t *) k)[0]]; }
static bool my_equiv(void * a, void * b) { return ((uint8_t *) a)[0] == ((uint8_t *) b)[0]; }
static uint8_t hk[2][NHK];       /* two distinct objects per key */
static struct embc_hashmap_s * hm;
static void * hmodel[NHK];
static int hcount;

#ifndef HOPS
#define HOPS 4
#endif

static void hm_step(int k);

static void hm_choose(int k, uint8_t c, int i) {
    if (i == NHK) {
        return;
    }
    if (c == i) {
        void * old = JUNK;
        CHECK(embc_hashmap_put(hm, &hk[k & 1][i], VAL(k), &old) == 0, "put succeeds");
        CHECK(old == hmodel[i], "put reports the previous value");
        if (!hmodel[i]) {
            ++hcount;
        }
        hmodel[i] = VAL(k);
        hm_step(k + 1);
    } else {
        hm_choose(k, c, i + 1);
    }
}

static void hm_step(int k) {
    CHECK(embc_hashmap_length(hm) == hcount, "length counts the distinct keys");
    for (int i = 0; i < NHK; ++i) {
        void * v = JUNK;
        int rc = embc_hashmap_get(hm, &hk[0][i], &v);
        if (hmodel[i]) {
            CHECK(rc == 0 && v == hmodel[i], "get returns the value of the last put");
        } else {
            CHECK(rc == EMBC_ERROR_NOT_FOUND && v == 0, "an absent key is not found");
        }
    }
    if (k == HOPS) {
        WITNESS();
        embc_hashmap_free(hm);
        CHECK(vh_live == 0, "destroying the map releases all its memory");
        return;
    }
    hm_choose(k, nd_below8(NHK), 0);
}

static embc_size_t const patterns[][NHK] = {     /* 0 and 8, 7 and -1 share bins */
    {0, 0, 0}, {0, 8, 0}, {-1, 7, 15}, {3, -1, 3}, {1, 2, 9}
};

static void hm_hash(uint8_t c, int i) {
    if (i == sizeof(patterns) / sizeof(patterns[0])) {
        return;
    }
    if (c == i) {
        for (int j = 0; j < NHK; ++j) {
            hhash[j] = patterns[i][j];
        }
        hm_step(0);
    } else {
        hm_hash(c, i + 1);
    }
}

void h_hashmap(void) {
    vh_init();
    for (int i = 0; i < NHK; ++i) {
        hk[0][i] = hk[1][i] = i;
    }
    hm = embc_hashmap_new(my_hash, my_equiv);
    CHECK(hm != 0, "creation succeeds");
    hm_hash(nd_u8(), 0);
}

/* any hash values */
void h_hashmap_any(void) {
    vh_init();
    for (int i = 0; i < NHK; ++i) {
        hk[0][i] = hk[1][i] = i;
        hhash[i] = (embc_size_t) nd_i64();
    }
    hm = embc_hashmap_new(my_hash, my_equiv);
    void * v = JUNK;
    CHECK(embc_hashmap_put(hm, &hk[0][0], VAL(1), &v) == 0 && v == 0, "put");
    CHECK(embc_hashmap_put(hm, &hk[0][1], VAL(2), &v) == 0 && v == 0, "put of a new key");
    CHECK(embc_hashmap_put(hm, &hk[1][0], VAL(3), &v) == 0 && v == VAL(1), "put reports the previous value");
    CHECK(embc_hashmap_length(hm) == 2, "length counts the distinct keys");
    CHECK(embc_hashmap_get(hm, &hk[1][1], &v) == 0 && v == VAL(2), "get");
    CHECK(embc_hashmap_get(hm, &hk[0][0], &v) == 0 && v == VAL(3), "get");
    CHECK(embc_hashmap_get(hm, &hk[0][2], &v) == EMBC_ERROR_NOT_FOUND && v == 0, "absent key");
    CHECK(embc_hashmap_new(0, my_equiv) == 0 && embc_hashmap_new(my_hash, 0) == 0, "both functions are required");
    WITNESS();
}
