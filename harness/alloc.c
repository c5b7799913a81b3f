/* Allocators: buffer allocator, block allocator, fixed pool, object pool. */
#include "vh.h"
#include "embc/memory/buffer.h"
#include "embc/memory/block.h"
#include "embc/memory/pool.h"
#include "embc/memory/object_pool.h"

#ifndef NOPS
#define NOPS 4
#endif
#ifndef SIZES
#define SIZES 2, 1
#endif
#ifndef NSLOT
#define NSLOT 3
#endif

static embc_size_t const sizes[] = { SIZES };
#define NPOOL ((embc_size_t) (sizeof(sizes) / sizeof(sizes[0])))
#define MAXSZ (32 << (NPOOL - 1))

#ifndef ARENA_N
#define ARENA_N 160
#endif
#ifndef ARENA_T
#define ARENA_T uint64_t
#endif
static ARENA_T arena[ARENA_N * 8 / sizeof(ARENA_T)] __attribute__((aligned(8)));

static struct embc_buffer_s * slot[NSLOT];
static embc_size_t slot_class[NSLOT];
static embc_size_t left_[NPOOL];
static uint8_t * ba_base;
static embc_size_t ba_total;
static struct embc_buffer_allocator_s * ba;

static void ba_setup(void) {
    for (int i = 0; i < NPOOL; ++i) {
        left_[i] = sizes[i];
    }
    ba_total = embc_buffer_allocator_instance_size(sizes, NPOOL);
    ASSUME(ba_total <= (embc_size_t) sizeof(arena));
    ba_base = (uint8_t *) arena;
    ba = (struct embc_buffer_allocator_s *) ba_base;
    embc_buffer_allocator_initialize(ba, sizes, NPOOL);
}

static void ba_check(struct embc_buffer_s * b, int i, embc_size_t cls) {
    CHECK(b->capacity == (32 << cls), "the smallest fitting size is used");
    CHECK(b->cursor == 0 && b->length == 0 && b->reserve == 0 && b->flags == 0, "a new buffer is empty");
    CHECK(embc_list_is_empty(&b->item), "a new buffer is in no list");
    CHECK(b->data >= ba_base && b->data + b->capacity <= ba_base + ba_total
          && (uint8_t *) b >= ba_base && (uint8_t *) (b + 1) <= ba_base + ba_total, "the buffer lies in the allocator memory");
    for (int j = 0; j < NSLOT; ++j) {
        if (j != i && slot[j]) {
            CHECK(slot[j] != b, "no buffer is handed out twice");
            CHECK(slot[j]->data + slot[j]->capacity <= b->data || b->data + b->capacity <= slot[j]->data, "buffer memory does not overlap");
            CHECK((uint8_t *) (slot[j] + 1) <= b->data || b->data + b->capacity <= (uint8_t *) slot[j], "buffer memory does not overlap a header");
            CHECK(slot[j]->length == 32 << slot_class[j] && slot[j]->cursor == 1 && slot[j]->reserve == 2 && slot[j]->flags == 3
                  && slot[j]->data[0] == 0x5a && slot[j]->data[(32 << slot_class[j]) - 1] == 0xa5, "live buffers are not disturbed");
        }
    }
    /* use all of it */
    b->data[b->capacity - 1] = 0xa5;
    b->data[0] = 0x5a;
    b->length = b->capacity;
    b->cursor = 1;
    b->reserve = 2;
    b->flags = 3;
}

/* Histories: every branch continues on its own, so that pointers stay known. */
static void ba_step(int k);

static void ba_alloc(int k, embc_size_t req, embc_size_t cls) {
    int i = 0;
    while (i < NSLOT && slot[i]) {
        ++i;
    }
    if (i == NSLOT) {
        return;
    }
    struct embc_buffer_s * b = embc_buffer_alloc_unsafe(ba, req);
    if (left_[cls] == 0) {
        CHECK(b == 0, "an exhausted size gives no buffer");
        if (nd_bool()) {
            EXPECT_FATAL((void) embc_buffer_alloc(ba, req), "exhaustion is fatal");
            return;
        }
    } else {
        CHECK(b != 0, "a size with free buffers gives one");
        left_[cls] -= 1;
        ba_check(b, i, cls);
        slot[i] = b;
        slot_class[i] = cls;
    }
    ba_step(k + 1);
}

static void ba_choose_free(int k, uint8_t c, int i) {
    if (i == NSLOT) {
        return;
    }
    if (c == i) {
        if (slot[i]) {
            embc_buffer_free(slot[i]);
            left_[slot_class[i]] += 1;
            slot[i] = 0;
            ba_step(k + 1);
        }
    } else {
        ba_choose_free(k, c, i + 1);
    }
}

static void ba_choose(int k, uint8_t c, embc_size_t cls) {
    if (cls == NPOOL) {
        ba_choose_free(k, c - NPOOL, 0);
    } else if (c == cls) {
        ba_alloc(k, (k & 1) ? (32 << cls) : (cls ? (16 << cls) + 1 : 1), cls);
    } else {
        ba_choose(k, c, cls + 1);
    }
}

static void ba_step(int k) {
    if (k == NOPS) {
        WITNESS();
        return;
    }
    ba_choose(k, nd_below8(NPOOL + NSLOT), 0);
}

void h_buf_alloc(void) {
    ba_setup();
    ba_step(0);
}

/* every request size: one branch per size, so that the pool stays known */
static void ba_one_size(embc_size_t req) {
    embc_size_t cls = 0;
    while ((32 << cls) < req) {
        ++cls;
    }
    struct embc_buffer_s * b = embc_buffer_alloc_unsafe(ba, req);
    CHECK((b != 0) == (sizes[cls] > 0), "a buffer is given exactly when that size has one");
    if (b) {
        ba_check(b, 0, cls);
    }
    WITNESS();
}

void h_buf_alloc_size(void) {
    ba_setup();
    uint8_t req = 1 + nd_below8(MAXSZ);
    for (embc_size_t v = 1; v <= MAXSZ; ++v) {
        if (req == v) {
            ba_one_size(v);
            return;
        }
    }
}

void h_buf_alloc_bad_size(void) {
    ba_setup();
    embc_size_t req = (embc_size_t) nd_i64();
    ASSUME(req < 1 || req > MAXSZ);
    WITNESS();
    if (nd_bool()) {
        EXPECT_FATAL((void) embc_buffer_alloc_unsafe(ba, req), "a request that no size fits is fatal");
    } else {
        EXPECT_FATAL((void) embc_buffer_alloc(ba, req), "a request that no size fits is fatal");
    }
}

/* Block allocator: any history of allocations and releases. */
#ifndef BLOCKS
#define BLOCKS 10
#endif
#ifndef BSZ
#define BSZ 4
#endif
#ifndef MOPS
#define MOPS 4
#endif
#ifndef MSLOT
#define MSLOT 3
#endif

/* the memory's size need not be a multiple of the block size */
static uint8_t bmem[BLOCKS * BSZ + 1];

static int32_t blocks_of(int32_t size) {
    return (int32_t) (((int64_t) size + BSZ - 1) / BSZ);
}

static uint32_t used;                    /* bit per block */
static struct embc_mblock_s * mb;

static bool run_exists(int64_t need) {
    bool exists = false;
    for (int i = 0; i < BLOCKS; ++i) {
        if (need <= BLOCKS && i + need <= BLOCKS && ((used >> i) & ((1U << need) - 1)) == 0) {
            exists = true;
        }
    }
    return exists;
}

static uint64_t inst_[(sizeof(void *) * 4 + BLOCKS) / 8 + 8];

/* one allocation; returns its blocks */
static uint8_t * take(int32_t size, bool fatal_form, uint32_t * mask) {
    int64_t need = ((int64_t) size + BSZ - 1) / BSZ;
    bool exists = run_exists(need);
    uint8_t * p;
    *mask = 0;
    p = fatal_form && exists ? embc_mblock_alloc(mb, size) : embc_mblock_alloc_unsafe(mb, size);
    CHECK((p != 0) == exists, "allocation succeeds exactly when a long enough run of free blocks exists");
    if (p) {
        CHECK(p >= bmem && p + size <= bmem + sizeof(bmem), "the allocation lies in the managed memory");
        uint32_t at = (uint32_t) (p - bmem);
        CHECK(at % BSZ == 0, "the allocation is block aligned");
        *mask = (need >= 32 ? 0 : (1U << need) - 1) << (at / BSZ);
        CHECK((used & *mask) == 0, "the allocation overlaps no live allocation");
        used |= *mask;
    }
    return p;
}

static void mb_setup(void) {
    CHECK(embc_mblock_instance_size((int32_t) sizeof(bmem), BSZ) <= (int32_t) sizeof(inst_), "instance size");
    mb = (struct embc_mblock_s *) inst_;
    CHECK(embc_mblock_initialize(mb, bmem, (int32_t) sizeof(bmem), BSZ) == 0, "initialization succeeds");
}

/* Any occupancy (all blocks taken, any subset released), then allocations and releases;
 * every branch continues on its own. */
#ifndef MFIX
#define MFIX 0          /* occupancy of the blocks MFIX_FROM.. */
#endif
#ifndef MFIX_FROM
#define MFIX_FROM BLOCKS
#endif

static void mb_after(int32_t need) {
    static int32_t const second[] = {1, 2};
    static uint32_t m1, m2;
    uint8_t * p1 = take(need * BSZ - (need & 1), true, &m1);
    if (p1 && nd_bool()) {
        embc_mblock_free(mb, p1, need * BSZ - (need & 1));
        used &= ~m1;
        (void) take((need < BLOCKS ? need + 1 : need) * BSZ, false, &m2);
    } else {
        (void) take(second[need & 1] * BSZ, false, &m2);
    }
    WITNESS();
}

static void mb_need(uint8_t need, int32_t n) {
    if (n > 4) {
        if (need == n) {
            mb_after(BLOCKS - 1);
        }
    } else if (need == n) {
        mb_after(n);
    } else {
        mb_need(need, n + 1);
    }
}

static void mb_occupy(int i) {
    if (i == BLOCKS) {
        mb_need(nd_below8(6), 1);
        return;
    }
    if (i >= MFIX_FROM ? ((MFIX >> (i - MFIX_FROM)) & 1) == 0 : nd_bool()) {
        embc_mblock_free(mb, bmem + i * BSZ, BSZ);
        used &= ~(1U << i);
        mb_occupy(i + 1);
    } else {
        mb_occupy(i + 1);
    }
}

void h_mblock(void) {
    mb_setup();
    for (int i = 0; i < BLOCKS; ++i) {
        CHECK(embc_mblock_alloc_unsafe(mb, BSZ) == bmem + i * BSZ, "every block can be used");
    }
    CHECK(embc_mblock_alloc_unsafe(mb, 1) == 0, "a full allocator gives nothing");
    used = (1U << BLOCKS) - 1;
    mb_occupy(0);
}

/* every size, on an allocator with its first MTAKEN blocks taken */
#ifndef MTAKEN
#define MTAKEN 0
#endif
void h_mblock_size(void) {
    uint32_t m;
    mb_setup();
    if (MTAKEN) {
        (void) take(MTAKEN * BSZ, true, &m);
    }
    int32_t size = nd_i32();
    ASSUME(size > 0);
    WITNESS();
    int64_t need = ((int64_t) size + BSZ - 1) / BSZ;
    uint8_t * p = embc_mblock_alloc_unsafe(mb, size);
    CHECK((p != 0) == (need <= BLOCKS - MTAKEN), "allocation succeeds exactly when a long enough run of free blocks exists");
    if (p) {
        uint32_t at = (uint32_t) (p - bmem);
        CHECK(p >= bmem && at + size <= sizeof(bmem), "the allocation lies in the managed memory");
        CHECK(at >= MTAKEN * BSZ, "the allocation overlaps no live allocation");
    }
}

/* any two adjacent allocations, then exactly the rest of the memory */
static void mb_pair(int a, int b) {
    uint32_t m, ma;
    uint8_t * pa = a ? take(a * BSZ, true, &ma) : bmem;
    uint8_t * pb = take(b * BSZ - (b & 1), true, &m);
    CHECK(pa && pb, "the requests fit");
    if (nd_bool()) {
        embc_mblock_free(mb, pb, b * BSZ - (b & 1));
        used &= ~m;
        b = 0;
    } else if (a && nd_bool()) {
        embc_mblock_free(mb, pa, a * BSZ);
        used &= ~ma;
        (void) take((a + 1) * BSZ, false, &m);
        (void) take(a * BSZ, false, &m);
    }
    if (a + b < BLOCKS) {
        (void) take((BLOCKS - a - b) * BSZ, false, &m);
    }
    (void) take(1, false, &m);
    WITNESS();
}

#ifndef MFIRST
#define MFIRST 1
#define MLAST BLOCKS
#endif

static void mb_pair_b(int a, uint8_t c, int b) {
    if (a + b <= BLOCKS && b <= MLAST) {
        if (c == b) {
            mb_pair(a, b);
        } else {
            mb_pair_b(a, c, b + 1);
        }
    }
}

void h_mblock_pair(void) {
    mb_setup();
    mb_pair_b(MTAKEN, nd_below8(MLAST + 1), MFIRST);
}

void h_mblock_exhausted(void) {
    uint32_t m;
    mb_setup();
    (void) take((BLOCKS - 1) * BSZ, true, &m);
    int32_t size = nd_i32();
    ASSUME(size > BSZ);
    WITNESS();
    EXPECT_FATAL((void) embc_mblock_alloc(mb, size), "allocation without a free run is fatal");
}

/* releasing a range with any block that is not allocated is fatal */
void h_mblock_bad_free(void) {
    static uint64_t inst[32];
    struct embc_mblock_s * m = (struct embc_mblock_s *) inst;
    embc_mblock_initialize(m, bmem, (int32_t) sizeof(bmem), BSZ);
    int32_t n1 = 1 + (int32_t) nd_below8(3);
    int32_t n2 = 1 + (int32_t) nd_below8(3);
    int32_t n3 = 1 + (int32_t) nd_below8(3);
    uint8_t * a = embc_mblock_alloc(m, n1 * BSZ);
    uint8_t * b = embc_mblock_alloc(m, n2 * BSZ);
    uint8_t * c = embc_mblock_alloc(m, n3 * BSZ);
    embc_mblock_free(m, b, n2 * BSZ);
    CHECK(a + n1 * BSZ == b && b + n2 * BSZ == c, "allocations take the first free run");
    int32_t at = nd_below8(BLOCKS);
    int32_t n = 1 + (int32_t) nd_below8(3);
    bool bad = at + n > BLOCKS;
    for (int32_t i = 0; i < BLOCKS; ++i) {
        if (i >= at && i < at + n) {
            bad = bad || (i >= n1 && i < n1 + n2) || i >= n1 + n2 + n3;
        }
    }
    if (bad) {
        EXPECT_FATAL(embc_mblock_free(m, bmem + at * BSZ, n * BSZ), "releasing what is not allocated is fatal");
        return;
    }
    embc_mblock_free(m, bmem + at * BSZ, n * BSZ);
    WITNESS();
}

/* releasing a range that starts in the managed memory and ends after it */
void h_mblock_past_end(void) {
    struct embc_mblock_s * m;
    uint8_t * mem = bmem;
    m = malloc((size_t) embc_mblock_instance_size(BLOCKS * BSZ, BSZ));
    ASSUME(m != 0);
    embc_mblock_initialize(m, mem, BLOCKS * BSZ, BSZ);
    CHECK(embc_mblock_alloc_unsafe(m, BLOCKS * BSZ) == mem, "all blocks can be used at once");
    uint8_t at = nd_below8(BLOCKS);
    int32_t n = nd_i32();
    ASSUME(at + (int64_t) n > BLOCKS && n < BLOCKS + 3 && n > 0);
    WITNESS();
    EXPECT_FATAL(embc_mblock_free(m, mem + at * BSZ, n * BSZ), "releasing past the managed memory is fatal");
}

void h_mblock_outside(void) {
    static uint64_t inst[32];
    static uint8_t around[BLOCKS * BSZ + 32];
    struct embc_mblock_s * m = (struct embc_mblock_s *) inst;
    embc_mblock_initialize(m, around + 16, BLOCKS * BSZ, BSZ);
    (void) embc_mblock_alloc(m, BLOCKS * BSZ);
    uint32_t at = nd_below(sizeof(around));
    WITNESS();
    ASSUME(at < 16 || at >= 16 + BLOCKS * BSZ);
    EXPECT_FATAL(embc_mblock_free(m, around + at, BSZ), "releasing memory outside the managed region is fatal");
}

/* Fixed size pool. */
#ifndef PCOUNT
#define PCOUNT 3
#endif
#ifndef PSIZE
#define PSIZE 5
#endif
#ifndef POPS
#define POPS 5
#endif

static struct embc_pool_s * pool;
static uint8_t * pbase;
static int32_t ptotal;
static uint8_t * ps[PCOUNT];
static int pn;

static void pool_step(int k);

static void pool_take(int i, bool fatal_form) {
    uint8_t * b = fatal_form ? embc_pool_alloc(pool) : embc_pool_alloc_unsafe(pool);
    CHECK(b != 0, "a pool with free blocks gives one");
    CHECK(b >= pbase && b + PSIZE <= pbase + ptotal, "the block lies in the pool memory");
    CHECK((b - pbase) % sizeof(int *) == 0, "the block is aligned");
    for (int j = 0; j < PCOUNT; ++j) {
        if (ps[j]) {
            CHECK(b + PSIZE <= ps[j] || ps[j] + PSIZE <= b, "blocks do not overlap");
        }
    }
    for (int q = 0; q < PSIZE; ++q) {
        b[q] = 0x5a;
    }
    ps[i] = b;
    ++pn;
}

/* every branch continues with its own history, so that pointers stay known */
static void pool_choose(int k, uint8_t c, int i) {
    if (i == PCOUNT) {
        if (pn == PCOUNT) {
            CHECK(embc_pool_alloc_unsafe(pool) == 0, "an exhausted pool gives no block");
            pool_step(k + 1);
        }
        return;
    }
    if (c == i) {
        if (ps[i]) {
            for (int q = 0; q < PSIZE; ++q) {
                CHECK(ps[i][q] == 0x5a, "block content is preserved while allocated");
            }
            embc_pool_free(pool, ps[i]);
            ps[i] = 0;
            --pn;
        } else {
            pool_take(i, (k & 1) != 0);
        }
        pool_step(k + 1);
    } else {
        pool_choose(k, c, i + 1);
    }
}

static void pool_step(int k) {
    CHECK((embc_pool_is_empty(pool) != 0) == (pn == PCOUNT), "emptiness is reported exactly");
    if (k == POPS) {
        WITNESS();
        if (pn == PCOUNT) {
            EXPECT_FATAL((void) embc_pool_alloc(pool), "exhaustion is fatal");
        }
        return;
    }
    pool_choose(k, nd_below8(PCOUNT + 1), 0);
}

void h_pool(void) {
    vh_init();
    ptotal = embc_pool_instance_size(PCOUNT, PSIZE);
    ASSUME(ptotal <= (int32_t) sizeof(arena));
    pbase = (uint8_t *) arena;
    pool = (struct embc_pool_s *) pbase;
    CHECK(embc_pool_initialize(pool, PCOUNT, PSIZE) == 0, "initialization succeeds");
    pool_step(0);
}

/* Object pool. */
static int built, destroyed;
static uint8_t * built_last;
static uint8_t * destroyed_last;
static void ctor(void * o) { ++built; built_last = o; ((uint8_t *) o)[0] = 0x11; }
static void dtor(void * o) { ++destroyed; destroyed_last = o; }

/* callbacks that use the pool themselves */
static struct embc_object_pool_s * np;
static uint8_t * nchild;
static bool nctor_on, ndtor_on;
static uint8_t nmark;
static void nctor(void * o) {
    ((uint8_t *) o)[0] = 0x22;
    if (nctor_on) {
        nctor_on = false;
        nchild = embc_object_pool_alloc(np);
        CHECK(nchild != (uint8_t *) o, "an object under construction is not given out again");
        nchild[1] = nmark;
    }
}
static void ndtor(void * o) {
    uint8_t was = ((uint8_t *) o)[1];
    if (ndtor_on) {
        ndtor_on = false;
        if (nchild) {
            uint8_t * c = nchild;
            nchild = 0;
            CHECK(c[1] == nmark, "object content is preserved while referenced");
            CHECK(embc_object_pool_decr(c), "released at the last reference");
        } else {
            nchild = embc_object_pool_alloc(np);
            CHECK(nchild != (uint8_t *) o, "an object is not reused before its destructor is done");
            nchild[1] = nmark;
        }
        CHECK(((uint8_t *) o)[1] == was, "an object is intact until its destructor is done");
    }
}

#ifndef OCOUNT
#define OCOUNT 2
#endif
#ifndef OSIZE
#define OSIZE 6
#endif
#ifndef OOPS
#define OOPS 5
#endif
#ifndef WITH_FNS
#define WITH_FNS 1
#endif

static struct embc_object_pool_s * op;
static int32_t ototal;
static uint8_t * os_[OCOUNT];
static int orefs[OCOUNT];
static uint8_t omark[OCOUNT];
static int on, onb, ondd;

static void op_step(int k);

static void op_take(int i) {
    uint8_t * base = (uint8_t *) arena;
    uint8_t * b = embc_object_pool_alloc(op);
    CHECK(b >= base && b + OSIZE <= base + ototal, "the object lies in the pool memory");
    CHECK((b - base) % 8 == 0, "the object is aligned");
    if (WITH_FNS) {
        ++onb;
        CHECK(built == onb && built_last == b && b[0] == 0x11, "the constructor runs once on the new object");
    } else {
        for (int q = 0; q < OSIZE; ++q) {
            CHECK(b[q] == 0, "an object without constructor is zeroed");
        }
    }
    for (int j = 0; j < OCOUNT; ++j) {
        if (os_[j]) {
            CHECK(b + OSIZE <= os_[j] || os_[j] + OSIZE <= b, "live objects do not overlap");
        }
    }
    omark[i] = nd_u8();
    for (int q = 0; q < OSIZE; ++q) {
        b[q] = omark[i];
    }
    os_[i] = b;
    orefs[i] = 1;
    ++on;
}

static void op_choose(int k, uint8_t c, int i) {
    if (i == OCOUNT) {
        return;
    }
    if (c == i) {
        if (os_[i]) {
            embc_object_pool_incr(os_[i]);
            ++orefs[i];
        } else {
            op_take(i);
        }
        op_step(k + 1);
    } else if (c == OCOUNT + i) {
        if (os_[i]) {
            for (int q = 0; q < OSIZE; ++q) {
                CHECK(os_[i][q] == omark[i], "object content is preserved while referenced");
            }
            --orefs[i];
            bool gone = embc_object_pool_decr(os_[i]);
            CHECK(gone == (orefs[i] == 0), "an object is returned exactly at its last release");
            if (orefs[i] == 0) {
                if (WITH_FNS) {
                    ++ondd;
                    CHECK(destroyed_last == os_[i], "the destructor gets the released object");
                }
                os_[i] = 0;
                --on;
            }
            op_step(k + 1);
        }
    } else {
        op_choose(k, c, i + 1);
    }
}

static void op_step(int k) {
    CHECK(built == onb && destroyed == ondd, "constructor and destructor run exactly once per life");
    if (k == OOPS) {
        WITNESS();
        if (on == OCOUNT) {
            EXPECT_FATAL((void) embc_object_pool_alloc(op), "exhaustion is fatal");
        }
        return;
    }
    op_choose(k, nd_below8(2 * OCOUNT), 0);
}

void h_object_pool(void) {
    ototal = embc_object_pool_instance_size(OCOUNT, OSIZE);
    ASSUME(ototal <= (int32_t) sizeof(arena));
    op = (struct embc_object_pool_s *) arena;
    CHECK(embc_object_pool_initialize(op, OCOUNT, OSIZE, WITH_FNS ? ctor : 0, WITH_FNS ? dtor : 0) == 0, "initialization succeeds");
    op_step(0);
}

/* using an object after its last release is fatal */
void h_object_pool_dead(void) {
    struct embc_object_pool_s * p = (struct embc_object_pool_s *) arena;
    embc_object_pool_initialize(p, OCOUNT, OSIZE, 0, 0);
    void * a = embc_object_pool_alloc(p);
    void * b = embc_object_pool_alloc(p);
    uint8_t extra = nd_below8(3);
    for (int i = 0; i < 2; ++i) {
        if (i < extra) { embc_object_pool_incr(a); }
    }
    for (int i = 0; i < 3; ++i) {
        if (i <= extra) {
            CHECK(embc_object_pool_decr(a) == (i == extra), "released after all references");
        }
    }
    (void) b;
    WITNESS();
    if (nd_bool()) {
        EXPECT_FATAL(embc_object_pool_incr(a), "referencing a released object is fatal");
    } else {
        EXPECT_FATAL((void) embc_object_pool_decr(a), "releasing a released object is fatal");
    }
}

/* constructors and destructors that allocate and release other objects of the pool */
static void op_nested(bool c, bool d, bool share) {
    uint8_t m = nd_u8();
    nctor_on = c;
    ndtor_on = d;
    uint8_t * a = embc_object_pool_alloc(np);
    a[1] = m;
    CHECK(a[0] == 0x22 && a != nchild, "the constructor prepared the object");
    if (share) {
        embc_object_pool_incr(a);
        CHECK(!embc_object_pool_decr(a), "still referenced");
    }
    CHECK(embc_object_pool_decr(a), "released at the last reference");
    CHECK(!nchild || nchild[1] == nmark, "object content is preserved while referenced");
    nctor_on = ndtor_on = false;
    uint8_t * l[3];
    int n = nchild ? 2 : 3;
    for (int i = 0; i < n; ++i) {
        l[i] = embc_object_pool_alloc(np);
        CHECK(l[i] != nchild, "live objects do not overlap");
        for (int j = 0; j < i; ++j) {
            CHECK(l[j] != l[i], "live objects do not overlap");
        }
    }
    WITNESS();
    EXPECT_FATAL((void) embc_object_pool_alloc(np), "exhaustion is fatal");
}

#ifndef NCALL
#define NCALL 2
#endif

void h_object_pool_nested(void) {
    np = (struct embc_object_pool_s *) arena;
    embc_object_pool_initialize(np, 3, 6, nctor, ndtor);
    nmark = nd_u8();
    op_nested((NCALL & 1) != 0, (NCALL & 2) != 0, true);
}
