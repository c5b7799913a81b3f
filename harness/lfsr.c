/* Pseudo random sequence. */
#include "vh.h"
#include "embc/lfsr.h"

#ifndef NK
#define NK 1
#endif

#ifndef NG
#define NG 5
#endif
#ifndef NBAD
#define NBAD 3
#endif

static uint16_t rstep(uint16_t s) {
    /* x^16 + x^14 + x^13 + x^11 + 1, shifting right */
    uint16_t bit = (s ^ (s >> 2) ^ (s >> 3) ^ (s >> 5)) & 1;
    return (uint16_t) ((s >> 1) | (bit << 15));
}

static uint16_t rsteps(uint16_t s, int n) {
    for (int i = 0; i < n; ++i) {
        s = rstep(s);
    }
    return s;
}

void h_lfsr_recurrence(void) {
    struct embc_lfsr_s l;
    embc_lfsr_initialize(&l);
    uint16_t seed = nd_u16();
    embc_lfsr_seed_u16(&l, seed);
    uint16_t s = seed ? seed : 1;
    for (int k = 0; k < NK; ++k) {
        switch (nd_below(4)) {
            case 0:
                s = rsteps(s, 1);
                CHECK(embc_lfsr_next_u1(&l) == (s >> 15), "next bit follows the recurrence");
                break;
            case 1:
                s = rsteps(s, 8);
                CHECK(embc_lfsr_next_u8(&l) == (s >> 8), "next 8 bits follow the recurrence");
                break;
            case 2:
                s = rsteps(s, 16);
                CHECK(embc_lfsr_next_u16(&l) == s, "next 16 bits follow the recurrence");
                break;
            default: {
                uint16_t a = rsteps(s, 16);
                s = rsteps(a, 16);
                CHECK(embc_lfsr_next_u32(&l) == ((((uint32_t) a) << 16) | s), "next 32 bits follow the recurrence");
                break;
            }
        }
        CHECK(s != 0, "the zero state is never reached");
    }
    CHECK(embc_lfsr_next_u16(&l) == rsteps(s, 16), "mixed widths continue the same sequence");
    WITNESS();
}

void h_lfsr_forms(void) {
    struct embc_lfsr_s a, b;
    uint16_t seed = nd_u16();
    embc_lfsr_initialize(&a);
    embc_lfsr_initialize(&b);
    embc_lfsr_seed_u16(&a, seed);
    embc_lfsr_seed_u16(&b, seed);
    uint32_t w = embc_lfsr_next_u32(&a);
    uint16_t h0 = embc_lfsr_next_u16(&b);
    uint8_t b0 = embc_lfsr_next_u8(&b);
    uint8_t b1 = 0;
    for (int i = 0; i < 8; ++i) {
        b1 = (uint8_t) ((b1 >> 1) | (embc_lfsr_next_u1(&b) << 7));
    }
    CHECK((w >> 16) == h0, "32 bit form starts with the 16 bit form");
    CHECK((w & 0xffff) == (((uint32_t) b1 << 8) | b0), "byte and bit forms compose to the 16 bit form");
    struct embc_lfsr_s c, d;
    uint16_t seed2 = nd_u16();
    embc_lfsr_initialize(&c);
    embc_lfsr_initialize(&d);
    embc_lfsr_seed_u16(&c, seed);
    embc_lfsr_seed_u16(&d, seed2);
    if (seed && seed2 && seed != seed2) {
        CHECK(embc_lfsr_next_u16(&c) != embc_lfsr_next_u16(&d), "distinct states never merge");
    }
    WITNESS();
}

/* From any follower history, intact data is predicted again after at most 3 bytes. */
void h_lfsr_follow(void) {
    struct embc_lfsr_s g, f;
    embc_lfsr_initialize(&g);
    embc_lfsr_seed_u16(&g, nd_u16());
    embc_lfsr_initialize(&f);
    int errors = 0;
    uint32_t nbad = nd_below(NBAD + 1);
    for (uint32_t i = 0; i < NBAD; ++i) {
        if (i < nbad) {
            int rc = embc_lfsr_follow_u8(&f, nd_u8());
            CHECK(rc == 0 || rc == -1, "following returns success or mismatch");
            errors += (rc != 0);
        }
    }
    for (uint32_t i = 0; i < NG; ++i) {
        int rc = embc_lfsr_follow_u8(&f, embc_lfsr_next_u8(&g));
        if (nbad == 0 || i >= 3) {
            CHECK(rc == 0, "intact data is predicted once synchronized");
        }
        errors += (rc != 0);
    }
    CHECK(f.error_count == errors, "the error count equals the reported mismatches");
    /* synchronized now: a wrong byte is always reported */
    uint8_t good = embc_lfsr_next_u8(&g);
    uint8_t bad = nd_u8();
    int rc = embc_lfsr_follow_u8(&f, bad);
    CHECK((rc != 0) == (bad != good), "a mismatching value is reported");
    WITNESS();
}
