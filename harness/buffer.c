/* Data buffers: one operation from an arbitrary valid buffer state. */
#include "vh.h"
#include "embc/memory/buffer.h"
#include "embc/bbuf.h"

#ifndef CAP
#define CAP 12
#endif

static uint8_t mem[CAP];
static uint8_t old[CAP];
static uint16_t cur, len, res, cap;
static struct embc_buffer_s * B;

static struct embc_buffer_s * make(struct embc_buffer_s * b, uint8_t * m) {
    /* capacity CAP; any cursor <= length <= capacity, any reserve <= capacity, any content */
    uint8_t ** d = (uint8_t **) &b->data;
    uint16_t * c = (uint16_t *) &b->capacity;
    *d = m;
    *c = CAP;
    ND_BYTES(m, CAP);
    b->length = (uint16_t) nd_below8(CAP + 1);
    b->cursor = nd_u8();
    ASSUME(b->cursor <= b->length);
    b->reserve = (uint16_t) nd_below8(CAP + 1);
    b->buffer_id = 0;
    b->flags = 0;
    b->manager = &embc_buffer_manager_static;
    embc_list_initialize(&b->item);
    return b;
}

static struct embc_buffer_s store;

static void setup(void) {
    B = make(&store, mem);
    for (int i = 0; i < CAP; ++i) {
        old[i] = mem[i];
    }
    cur = B->cursor;
    len = B->length;
    res = B->reserve;
    cap = CAP;
}

static void invariant(void) {
    CHECK(B->cursor <= B->length, "cursor never exceeds length");
    CHECK(B->length <= B->capacity, "length never exceeds capacity");
    CHECK(B->capacity == CAP && B->data == mem && B->reserve == res, "capacity, memory and reserve are unchanged");
}

static bool fits(int32_t n) {
    return n == 0 || n <= (int32_t) cap - (int32_t) res - (int32_t) cur;
}

/* bytes outside [from, to) are unchanged */
static void only_changed(uint32_t from, uint32_t to) {
    uint32_t i = nd_below(CAP);
    if (i < from || i >= to) {
        CHECK(mem[i] == old[i], "bytes outside the written range are unchanged");
    }
}

static void moved(uint32_t n) {
    CHECK(B->cursor == cur + n, "the cursor advances by the written size");
    CHECK(B->length == ((cur + n > len) ? cur + n : len), "the length grows exactly when the cursor passes it");
}

void h_buf_write(void) {
    static uint8_t src[CAP + 2];
    setup();
    ND_BYTES(src, CAP + 2);
    int32_t n = (int32_t) nd_below8(CAP + 3);
    if (!fits(n)) {
        EXPECT_FATAL(embc_buffer_write(B, src, n), "a write that does not fit is fatal");
        return;
    }
    embc_buffer_write(B, src, n);
    invariant();
    moved(n);
    only_changed(cur, cur + n);
    uint32_t k = nd_below(CAP);
    if (k < (uint32_t) n) {
        CHECK(mem[cur + k] == src[k], "written bytes equal the source");
    }
    WITNESS();
}

void h_buf_copy(void) {
    static uint8_t smem[CAP];
    static struct embc_buffer_s s;
    setup();
    make(&s, smem);
    uint8_t sold[CAP];
    for (int i = 0; i < CAP; ++i) {
        sold[i] = smem[i];
    }
    uint16_t sc = s.cursor, sl = s.length;
    int32_t n = (int32_t) nd_below8(CAP + 3);
    bool ok = (n <= sl - sc) && (n <= (int32_t) cap - (int32_t) res - (int32_t) cur);
    if (!ok) {
        if (n > 0) {
            EXPECT_FATAL(embc_buffer_copy(B, &s, n), "a copy that does not fit is fatal");
        }
        return;
    }
    embc_buffer_copy(B, &s, n);
    invariant();
    moved(n);
    only_changed(cur, cur + n);
    uint32_t k = nd_below(CAP);
    if (k < (uint32_t) n) {
        CHECK(mem[cur + k] == sold[sc + k], "copied bytes equal the source from its cursor");
    }
    CHECK(smem[k] == sold[k] && s.length == sl && s.cursor >= sc && s.cursor <= s.length, "the source keeps its content");
    WITNESS();
}

void h_buf_read(void) {
    static uint8_t dst[CAP + 2];
    static uint8_t dold[CAP + 2];
    setup();
    ND_BYTES(dst, CAP + 2);
    for (int i = 0; i < CAP + 2; ++i) {
        dold[i] = dst[i];
    }
    int32_t n = (int32_t) nd_below8(CAP + 3);
    if (n > 0 && n > len - cur) {
        EXPECT_FATAL(embc_buffer_read(B, dst, n), "a read past the length is fatal");
        return;
    }
    embc_buffer_read(B, dst, n);
    invariant();
    CHECK(B->cursor == cur + n && B->length == len, "a read moves only the cursor, by the size read");
    only_changed(0, 0);
    uint32_t k = nd_below(CAP + 2);
    CHECK(dst[k] == (k < (uint32_t) n ? old[(cur + k) % CAP] : dold[k]), "exactly the requested bytes are read");
    WITNESS();
}

static void str_op(bool trunc) {
    static char s[CAP + 3];
    setup();
    uint32_t n = nd_below8(CAP + 3);
    for (uint32_t i = 0; i < CAP + 2; ++i) {
        s[i] = (char) nd_u8();
        ASSUME(i >= n || s[i] != 0);
    }
    s[n] = 0;
    uint32_t room = (cur + res < cap) ? (uint32_t) (cap - res - cur) : 0;
    uint32_t w = (n < room) ? n : room;
    if (trunc) {
        bool r = embc_buffer_write_str_truncate(B, s);
        CHECK(r == (n <= room), "a string write tells whether it was truncated");
    } else if (n <= room) {
        embc_buffer_write_str(B, s);
    } else {
        EXPECT_FATAL(embc_buffer_write_str(B, s), "a string that does not fit is fatal");
        return;
    }
    invariant();
    moved(w);
    only_changed(cur, cur + w);
    uint32_t k = nd_below(CAP);
    if (k < w) {
        CHECK(mem[cur + k] == (uint8_t) s[k], "string bytes are stored in order");
    }
    WITNESS();
}

void h_buf_str(void) { str_op(false); }
void h_buf_str_truncate(void) { str_op(true); }

void h_buf_erase(void) {
    setup();
    int32_t a = (int32_t) nd_below8(CAP + 4) - 2;
    int32_t e = (int32_t) nd_below8(CAP + 4) - 2;
    bool ok = (a >= 0) && (a < len) && (e >= 0) && (e <= len);
    if (!ok) {
        EXPECT_FATAL(embc_buffer_erase(B, a, e), "erasing outside the content is fatal");
        return;
    }
    embc_buffer_erase(B, a, e);
    invariant();
    uint32_t n = (e > a) ? (uint32_t) (e - a) : 0;
    CHECK(B->length == len - n, "erasing removes exactly the range");
    uint32_t k = nd_below(CAP);
    if (k < B->length) {
        CHECK(mem[k] == old[(k < (uint32_t) a) ? k : (k + n) % CAP], "the remaining bytes keep their order");
    }
    if (k >= len) {
        CHECK(mem[k] == old[k], "bytes past the content are unchanged");
    }
    uint32_t want = cur;
    if (n) {
        if (cur >= e) {
            want = cur - n;
        } else if (cur > a) {
            want = a;
        }
    }
    CHECK(B->cursor == want, "the cursor keeps its byte, or moves to the start of the erased range");
    WITNESS();
}

void h_buf_simple(void) {
    setup();
    CHECK(embc_buffer_capacity(B) == CAP && embc_buffer_length(B) == len && embc_buffer_cursor_get(B) == cur
          && embc_buffer_read_remaining(B) == (embc_size_t) (len - cur)
          && embc_buffer_write_remaining(B) == (embc_size_t) cap - res - cur, "accessors report the state");
    switch (nd_below8(3)) {
        case 0: {
            embc_size_t i = (embc_size_t) nd_i64();
            if (i >= 0 && i <= len) {
                embc_buffer_cursor_set(B, i);
                CHECK(B->cursor == i && B->length == len, "the cursor is placed");
                only_changed(0, 0);
            } else {
                EXPECT_FATAL(embc_buffer_cursor_set(B, i), "a cursor outside the content is fatal");
                return;
            }
            break;
        }
        case 1:
            embc_buffer_reset(B);
            CHECK(B->cursor == 0 && B->length == 0, "reset empties the buffer");
            only_changed(0, 0);
            break;
        default: {
            embc_buffer_clear(B);
            uint32_t k = nd_below(CAP);
            CHECK(B->cursor == 0 && B->length == 0 && mem[k] == 0, "clear empties and zeroes the buffer");
            break;
        }
    }
    invariant();
    WITNESS();
}

/* byte k (0 first) of a value of w bytes */
static uint8_t byte_of(uint64_t v, int w, bool be, int k) {
    return (uint8_t) (v >> (8 * (be ? (w - 1 - k) : k)));
}

static void enc(int w, bool be, uint64_t v) {
    switch (w) {
        case 1: embc_buffer_write_u8(B, (uint8_t) v); break;
        case 2: if (be) { embc_buffer_write_u16_be(B, (uint16_t) v); } else { embc_buffer_write_u16_le(B, (uint16_t) v); } break;
        case 4: if (be) { embc_buffer_write_u32_be(B, (uint32_t) v); } else { embc_buffer_write_u32_le(B, (uint32_t) v); } break;
        default: if (be) { embc_buffer_write_u64_be(B, v); } else { embc_buffer_write_u64_le(B, v); } break;
    }
}

static uint64_t dec(int w, bool be) {
    switch (w) {
        case 1: return embc_buffer_read_u8(B);
        case 2: return be ? embc_buffer_read_u16_be(B) : embc_buffer_read_u16_le(B);
        case 4: return be ? embc_buffer_read_u32_be(B) : embc_buffer_read_u32_le(B);
        default: return be ? embc_buffer_read_u64_be(B) : embc_buffer_read_u64_le(B);
    }
}

static uint64_t low(uint64_t v, int w) {
    return (w == 8) ? v : (v & ((1ULL << (8 * w)) - 1));
}

void h_buf_int_write(void) {
    setup();
    int w = 1 << nd_below8(4);
    bool be = nd_bool();
    uint64_t v = nd_u64();
    if (!fits(w)) {
        EXPECT_FATAL(enc(w, be, v), "an integer that does not fit is fatal");
        return;
    }
    enc(w, be, v);
    invariant();
    moved(w);
    only_changed(cur, cur + w);
    int k = nd_below8(8);
    if (k < w) {
        CHECK(mem[cur + k] == byte_of(v, w, be, k), "integers are stored in the documented byte order");
    }
    embc_buffer_cursor_set(B, cur);
    CHECK(dec(w, be) == low(v, w), "reading back gives the written value");
    WITNESS();
}

void h_buf_int_read(void) {
    setup();
    int w = 1 << nd_below8(4);
    bool be = nd_bool();
    if (w > len - cur) {
        EXPECT_FATAL(dec(w, be), "an integer read past the length is fatal");
        return;
    }
    uint64_t v = dec(w, be);
    invariant();
    CHECK(B->cursor == cur + w && B->length == len, "an integer read moves only the cursor");
    only_changed(0, 0);
    int k = nd_below8(8);
    if (k < w) {
        CHECK(mem[cur + k] == byte_of(v, w, be, k), "integers are read in the documented byte order");
    }
    CHECK(low(v, w) == v, "only the integer's bytes are read");
    WITNESS();
}

void h_bbuf(void) {
    static uint8_t m[16], o[16];
    ND_BYTES(m, 16);
    for (int i = 0; i < 16; ++i) {
        o[i] = m[i];
    }
    int w = 1 << nd_below8(4);
    bool be = nd_bool();
    uint64_t v = nd_u64();
    uint8_t * p = m + 4;
    switch (w) {
        case 1: embc_bbuf_unsafe_encode_u8(&p, (uint8_t) v); break;
        case 2: if (be) { embc_bbuf_unsafe_encode_u16_be(&p, (uint16_t) v); } else { embc_bbuf_unsafe_encode_u16_le(&p, (uint16_t) v); } break;
        case 4: if (be) { embc_bbuf_unsafe_encode_u32_be(&p, (uint32_t) v); } else { embc_bbuf_unsafe_encode_u32_le(&p, (uint32_t) v); } break;
        default: if (be) { embc_bbuf_unsafe_encode_u64_be(&p, v); } else { embc_bbuf_unsafe_encode_u64_le(&p, v); } break;
    }
    CHECK(p == m + 4 + w, "encoding advances by the width");
    uint32_t k = nd_below(16);
    if (k >= 4 && k < 4 + (uint32_t) w) {
        CHECK(m[k] == byte_of(v, w, be, (int) k - 4), "encoding stores the documented bytes");
    } else {
        CHECK(m[k] == o[k], "encoding touches no other byte");
    }
    uint8_t const * q = m + 4;
    uint64_t r;
    switch (w) {
        case 1: r = embc_bbuf_unsafe_decode_u8(&q); break;
        case 2: r = be ? embc_bbuf_unsafe_decode_u16_be(&q) : embc_bbuf_unsafe_decode_u16_le(&q); break;
        case 4: r = be ? embc_bbuf_unsafe_decode_u32_be(&q) : embc_bbuf_unsafe_decode_u32_le(&q); break;
        default: r = be ? embc_bbuf_unsafe_decode_u64_be(&q) : embc_bbuf_unsafe_decode_u64_le(&q); break;
    }
    CHECK(r == low(v, w), "decoding gives the encoded value");
    CHECK(q == m + 4 + w, "decoding advances by the width");
    WITNESS();
}

/* decode from arbitrary bytes */
void h_bbuf_decode(void) {
    static uint8_t m[8];
    ND_BYTES(m, 8);
    uint8_t const * p = m;
    uint64_t le = 0, be = 0;
    for (int i = 0; i < 8; ++i) {
        le |= ((uint64_t) m[i]) << (8 * i);
        be = (be << 8) | m[i];
    }
    uint8_t const * q;
    q = p; CHECK(embc_bbuf_unsafe_decode_u8(&q) == m[0] && q == p + 1, "u8");
    q = p; CHECK(embc_bbuf_unsafe_decode_u16_le(&q) == (uint16_t) le && q == p + 2, "u16 little endian");
    q = p; CHECK(embc_bbuf_unsafe_decode_u16_be(&q) == (uint16_t) (be >> 48) && q == p + 2, "u16 big endian");
    q = p; CHECK(embc_bbuf_unsafe_decode_u32_le(&q) == (uint32_t) le && q == p + 4, "u32 little endian");
    q = p; CHECK(embc_bbuf_unsafe_decode_u32_be(&q) == (uint32_t) (be >> 32) && q == p + 4, "u32 big endian");
    q = p; CHECK(embc_bbuf_unsafe_decode_u64_le(&q) == le && q == p + 8, "u64 little endian");
    q = p; CHECK(embc_bbuf_unsafe_decode_u64_be(&q) == be && q == p + 8, "u64 big endian");
    WITNESS();
}

/* statically allocated buffers start empty and fully writable */
struct holder_s {
    EMBC_BUFFER_STATIC_DECLARE(sb, 8);
};
EMBC_BUFFER_STATIC_DEFINE(defined, 8);

void h_buf_static(void) {
    struct holder_s h;
    h.sb.reserve = nd_u16();
    h.sb.length = nd_u16();
    h.sb.cursor = nd_u16();
    EMBC_BUFFER_STATIC_INITIALIZE(h.sb);
    CHECK(embc_buffer_capacity(&h.sb) == 8 && embc_buffer_length(&h.sb) == 0 && embc_buffer_cursor_get(&h.sb) == 0
          && embc_buffer_write_remaining(&h.sb) == 8 && embc_buffer_read_remaining(&h.sb) == 0, "an initialized static buffer is empty and writable");
    CHECK(h.sb.data == h.sb_mem_, "the static buffer uses its own memory");
    CHECK(embc_list_is_empty(&h.sb.item), "the static buffer is in no list");
    embc_buffer_free(&h.sb);
    uint64_t v = nd_u64();
    embc_buffer_write_u64_le(&h.sb, v);
    CHECK(embc_buffer_write_remaining(&h.sb) == 0, "the whole capacity is usable");
    CHECK(embc_buffer_capacity(&defined) == 8 && embc_buffer_length(&defined) == 0
          && embc_buffer_write_remaining(&defined) == 8 && embc_list_is_empty(&defined.item), "a defined static buffer is empty and writable");
    WITNESS();
}
