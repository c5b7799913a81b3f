/* CRC functions against the textbook bit-serial division. */
#include "vh.h"
#include "embc/crc.h"

#ifndef NB
#define NB 6
#endif

static uint32_t reflect(uint32_t v, int bits) {
    uint32_t r = 0;
    for (int i = 0; i < bits; ++i) {
        if (v & (1U << i)) {
            r |= 1U << (bits - 1 - i);
        }
    }
    return r;
}

/* Rocksoft model: one message byte fed into the register (not inverted, MSB first). */
static uint32_t ref_step(uint32_t reg, uint8_t byte, int width, uint32_t poly, bool refin) {
    uint32_t top = 1U << (width - 1);
    uint32_t mask = (width == 32) ? 0xffffffffU : ((1U << width) - 1);
    if (refin) {
        byte = (uint8_t) reflect(byte, 8);
    }
    reg ^= ((uint32_t) byte) << (width - 8);
    for (int i = 0; i < 8; ++i) {
        reg = (reg & top) ? (((reg << 1) ^ poly) & mask) : ((reg << 1) & mask);
    }
    return reg;
}

/* a public value is the final form: optionally reflected register, inverted */
static uint32_t ref_byte(uint32_t crc, uint8_t byte, int width, uint32_t poly, bool refl) {
    uint32_t mask = (width == 32) ? 0xffffffffU : ((1U << width) - 1);
    uint32_t reg = (~crc) & mask;
    if (refl) {
        reg = reflect(reg, width);
    }
    reg = ref_step(reg, byte, width, poly, refl);
    if (refl) {
        reg = reflect(reg, width);
    }
    return (~reg) & mask;
}

/* One byte from an arbitrary previous value: decides the definition together with chaining. */
void h_crc8_step(void) {
    uint8_t c = nd_u8();
    uint8_t b = nd_u8();
    CHECK(embc_crc_ccitt_8(c, &b, 1) == ref_byte(c, b, 8, 0x07, true), "CRC-8 equals its bit serial definition");
    WITNESS();
}

void h_crc16_step(void) {
    uint16_t c = nd_u16();
    uint8_t b = nd_u8();
    CHECK(embc_crc_ccitt_16(c, &b, 1) == ref_byte(c, b, 16, 0x1021, false), "CRC-16 equals its bit serial definition");
    WITNESS();
}

void h_crc32_step(void) {
    uint32_t c = nd_u32();
    uint8_t b = nd_u8();
    CHECK(embc_crc32(c, &b, 1) == ref_byte(c, b, 32, 0x04C11DB7, true), "CRC-32 equals its bit serial definition");
    WITNESS();
}

#define CHAIN(name, type, nd, fn) \
void h_##name##_chain(void) { \
    uint8_t d[NB]; \
    type c = nd(); \
    uint32_t n = nd_below(NB + 1); \
    uint32_t k = nd_below(NB + 1); \
    ASSUME(k <= n); \
    ND_BYTES(d, NB); \
    type whole = fn(c, d, n); \
    type part = fn(fn(c, d, k), d + k, n - k); \
    CHECK(whole == part, "computing in two pieces equals computing at once"); \
    type b = c; \
    for (uint32_t i = 0; i < NB; ++i) { \
        if (i < n) { b = fn(b, &d[i], 1); } \
    } \
    CHECK(whole == b, "computing byte by byte equals computing at once"); \
    CHECK(fn(c, d, 0) == c, "empty data leaves the value unchanged"); \
    CHECK(fn(c, 0, 0) == c, "no data leaves the value unchanged"); \
    WITNESS(); \
}
CHAIN(crc8, uint8_t, nd_u8, embc_crc_ccitt_8)
CHAIN(crc16, uint16_t, nd_u16, embc_crc_ccitt_16)

/* every length and every split, each with symbolic contents */
void h_crc32_chain(void) {
    uint8_t d[NB];
    uint32_t c = nd_u32();
    ND_BYTES(d, NB);
    for (uint32_t n = 0; n <= NB; ++n) {
        uint32_t whole = embc_crc32(c, d, n);
        for (uint32_t k = 0; k <= n; ++k) {
            uint32_t part = embc_crc32(embc_crc32(c, d, k), d + k, n - k);
            CHECK(whole == part, "computing in two pieces equals computing at once");
        }
        uint32_t b = c;
        for (uint32_t i = 0; i < n; ++i) {
            b = embc_crc32(b, &d[i], 1);
        }
        CHECK(whole == b, "computing byte by byte equals computing at once");
    }
    CHECK(embc_crc32(c, 0, 0) == c, "no data leaves the value unchanged");
    WITNESS();
}

/* Error detection: burst of at most W bits anywhere in a message of NB bytes. */
#define DETECT(name, type, fn, width) \
void h_##name##_detect(void) { \
    uint8_t m[NB]; \
    uint8_t e[NB]; \
    ND_BYTES(m, NB); \
    uint32_t pos = nd_below(NB * 8); \
    uint32_t burst = nd_u32(); \
    ASSUME((burst & 1) && ((width) == 32 || burst < (1ULL << ((width) & 31)))); \
    for (uint32_t i = 0; i < NB; ++i) { \
        uint8_t x = 0; \
        for (uint32_t b = 0; b < 8; ++b) { \
            uint32_t at = i * 8 + b; \
            if (at >= pos && at - pos < 32 && ((burst >> (at - pos)) & 1)) { x |= BITPOS(b); } \
        } \
        e[i] = m[i] ^ x; \
    } \
    CHECK(fn(0, m, NB) != fn(0, e, NB), "a burst no longer than the checksum changes the checksum"); \
    WITNESS(); \
}
#define BITPOS(b) (1U << (b))
DETECT(crc8, uint8_t, embc_crc_ccitt_8, 8)
DETECT(crc32, uint32_t, embc_crc32, 32)
#undef BITPOS
#define BITPOS(b) (0x80U >> (b))
DETECT(crc16, uint16_t, embc_crc_ccitt_16, 16)
