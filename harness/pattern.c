/* 32-bit test pattern transmitter and receiver. */
#include "vh.h"
#include "embc/pattern_32a.h"

#ifndef NW
#define NW 6
#endif
#ifndef NA
#define NA 1
#endif
#ifndef DMAX
#define DMAX 2000
#endif

#define PAIRS (EMBC_PATTERN_32A_PERIOD / 2)

/* reference: word at position `pos` (in words) of the pattern */
struct pos_s { uint32_t s; uint32_t c; uint32_t t; };   /* shift phase 0..32, counter, toggle */

static struct pos_s pos_nd(uint32_t * k_out) {
    struct pos_s p;
    uint32_t k = nd_u32();
    uint32_t q = nd_u32();
    p.s = nd_u32();
    ASSUME(k < PAIRS && p.s < 33 && q < 65536);
    ASSUME(k == q * 33 + p.s);
    p.c = k & 0xffff;
    p.t = nd_bool() ? 1 : 0;
    *k_out = k;
    return p;
}

static uint32_t word_at(struct pos_s * p) {
    if (p->t == 0) {
        return (p->s == 0) ? 0 : (1U << (p->s - 1));
    }
    return (((~p->c) & 0xffff) << 16) | p->c;
}

static void advance(struct pos_s * p) {
    if (p->t == 0) {
        p->t = 1;
    } else {
        p->t = 0;
        p->s = (p->s == 32) ? 0 : p->s + 1;
        p->c = (p->c + 1) & 0xffff;
    }
}

static uint32_t next(struct pos_s * p) {
    uint32_t w = word_at(p);
    advance(p);
    return w;
}

/* transmitter placed at a position: public state, then one public step when mid-pair */
static void tx_at(struct embc_pattern_32a_tx_s * tx, struct pos_s * p) {
    embc_pattern_32a_tx_initialize(tx);
    tx->shift32 = (p->s == 0) ? 0 : (1U << (p->s - 1));
    tx->counter = (uint16_t) p->c;
    if (p->t) {
        embc_pattern_32a_tx_next(tx);
    }
}

void h_pat_tx_next(void) {
    struct embc_pattern_32a_tx_s tx;
    uint32_t k;
    struct pos_s p;
    if (nd_bool()) {
        p.s = 0; p.c = 0; p.t = 0;
        embc_pattern_32a_tx_initialize(&tx);
    } else {
        p = pos_nd(&k);
        tx_at(&tx, &p);
    }
    for (int i = 0; i < NW; ++i) {
        CHECK(embc_pattern_32a_tx_next(&tx) == next(&p), "the transmitter continues the documented sequence");
    }
    WITNESS();
}

void h_pat_tx_buffer(void) {
    struct embc_pattern_32a_tx_s tx;
    uint32_t buf[NW + 2];
    uint32_t k;
    struct pos_s p = pos_nd(&k);
    tx_at(&tx, &p);
    uint32_t canary = nd_u32();
    uint32_t n1 = nd_below(NW + 1);
    uint32_t n2 = nd_below(NW + 1);
    buf[n1] = canary;
    embc_pattern_32a_tx_buffer(&tx, buf, n1 * 4);
    for (uint32_t i = 0; i < NW; ++i) {
        if (i < n1) {
            CHECK(buf[i] == next(&p), "buffer form equals single steps");
        }
    }
    CHECK(buf[n1] == canary, "the buffer form writes nothing past the requested size");
    embc_pattern_32a_tx_buffer(&tx, buf, n2 * 4);
    for (uint32_t i = 0; i < NW; ++i) {
        if (i < n2) {
            CHECK(buf[i] == next(&p), "consecutive buffers continue the sequence");
        }
    }
    CHECK(embc_pattern_32a_tx_next(&tx) == next(&p), "single steps continue after a buffer");
    WITNESS();
}

static void rx_feed(struct embc_pattern_32a_rx_s * rx, struct pos_s * p, int n) {
    for (int i = 0; i < n; ++i) {
        embc_pattern_32a_rx_next(rx, next(p));
    }
}

static void rx_init(struct embc_pattern_32a_rx_s * rx) {
    /* arbitrary previous memory */
    rx->duplicate_count = nd_u64();
    rx->missing_count = nd_u64();
    rx->receive_count = nd_u64();
    rx->error_count = nd_u64();
    rx->resync_count = nd_u32();
    rx->syncword1 = nd_u32();
    rx->state = nd_u8();
    embc_pattern_32a_rx_initialize(rx);
}

/* Position k pairs from the start of the period. */
static struct pos_s pos_at(uint32_t k, uint32_t t) {
    struct pos_s p;
    p.s = k % 33;
    p.c = k & 0xffff;
    p.t = t;
    return p;
}

/* words from position p to position q are dropped: advance p by d words */
static struct pos_s forward(struct pos_s p, uint16_t d) {
    uint16_t pairs = (uint16_t) ((d + p.t) >> 1);
    p.t = (d + p.t) & 1;
    p.s = (p.s + pairs) % 33;
    p.c = (p.c + pairs) & 0xffff;
    return p;
}

static struct pos_s backward(struct pos_s p, uint16_t d) {
    uint16_t pairs = (uint16_t) ((d + 1 - p.t) >> 1);
    p.t = (d + p.t) & 1;
    p.s = (p.s + (33 * 2000) - pairs) % 33;
    p.c = (p.c - pairs) & 0xffff;
    return p;
}

#ifndef KMAX
#define KMAX 65535
#endif
#ifndef K0
#define K0 65533
#endif
#ifndef T0
#define T0 0
#endif

/* intact from any position up to KMAX pairs */
void h_pat_rx_intact(void) {
    struct embc_pattern_32a_rx_s rx;
    uint32_t k = nd_below(KMAX);
    struct pos_s p = pos_at(k, T0);
    rx_init(&rx);
    rx_feed(&rx, &p, NW);
    CHECK(rx.receive_count == NW, "every word is counted as received");
    CHECK(rx.resync_count == 0, "an intact pattern causes no resynchronization");
    CHECK(rx.missing_count == 0, "an intact pattern has no missing words");
    CHECK(rx.duplicate_count == 0, "an intact pattern has no duplicate words");
    CHECK(rx.error_count == 0, "an intact pattern has no errors");
    WITNESS();
}

/* d words dropped (or repeated) at a position, any d up to DMAX */
static void jump(bool dup) {
    struct embc_pattern_32a_rx_s rx;
    struct pos_s p = pos_at(K0, T0);
    rx_init(&rx);
    rx_feed(&rx, &p, 2);
    uint16_t d = nd_u16();
    ASSUME(d >= 1 && d <= DMAX);
    struct pos_s q = dup ? backward(p, d) : forward(p, d);
    /* the first word after the gap may coincide with the expected one */
    rx_feed(&rx, &q, 3);
    CHECK(rx.resync_count == 1, "one discontinuity causes one resynchronization");
    CHECK(rx.error_count == 1, "one discontinuity is counted once");
    CHECK(rx.missing_count == (dup ? 0 : d), "dropped words are counted exactly");
    CHECK(rx.duplicate_count == (dup ? d : 0), "duplicated words are counted exactly");
    rx_feed(&rx, &q, NA);
    CHECK(rx.receive_count == 5 + NA, "every word is counted as received");
    CHECK(rx.error_count == 1 && rx.resync_count == 1, "intact data after the discontinuity is accepted");
    WITNESS();
}

void h_pat_rx_missing(void) { jump(false); }
void h_pat_rx_duplicate(void) { jump(true); }

/* a synchronized receiver gets one corrupted word: counted, then synchronized again */
void h_pat_rx_corrupt(void) {
    struct embc_pattern_32a_rx_s rx;
    struct pos_s p = pos_at(K0, T0);
    rx_init(&rx);
    rx_feed(&rx, &p, 3);
    uint32_t good = next(&p);
#ifdef CBYTE
    uint32_t bad = good ^ (((uint32_t) nd_u8()) << CBYTE);
#else
    uint32_t bad = nd_u32();
#endif
    ASSUME(bad != good);
    embc_pattern_32a_rx_next(&rx, bad);
    CHECK(rx.error_count == 1 && rx.resync_count == 1, "a corrupted word is counted");
    rx_feed(&rx, &p, 4);
    uint64_t e = rx.error_count;
    uint32_t r = rx.resync_count;
    rx_feed(&rx, &p, 1);
    CHECK(rx.error_count == e && rx.resync_count == r, "synchronized again within four intact words");
    CHECK(rx.receive_count == 9, "every word is counted as received");
    WITNESS();
}

/* the buffer form: all words of the buffer are fed in order, also across a gap of d words */
void h_pat_rx_buffer(void) {
    struct embc_pattern_32a_rx_s a;
    uint32_t w[6];
    struct pos_s p = pos_at(K0, T0);
    rx_init(&a);
    w[0] = next(&p);
    w[1] = next(&p);
    w[2] = next(&p);
    uint16_t d = nd_u16();
    ASSUME(d >= 1 && d <= DMAX);
    struct pos_s q = forward(p, d);
    w[3] = next(&q);
    w[4] = next(&q);
    w[5] = next(&q);
    embc_pattern_32a_rx_buffer(&a, w, 4);
    CHECK(a.receive_count == 1, "one word");
    embc_pattern_32a_rx_buffer(&a, w, 0);
    CHECK(a.receive_count == 1, "an empty buffer changes nothing");
    embc_pattern_32a_rx_buffer(&a, w + 1, 5 * 4);
    CHECK(a.receive_count == 6, "every word of the buffer is counted");
    CHECK(a.missing_count == d && a.duplicate_count == 0
          && a.error_count == 1 && a.resync_count == 1, "the buffer form counts like single words");
    WITNESS();
}
