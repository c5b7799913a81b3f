/* Event manager: histories with callbacks that schedule and cancel. */
#include "vh.h"
#include "embc/event_manager.h"
#include "embc/time.h"

/* the event manager uses calloc and free: redirected here for leak accounting */
int evm_live;
void * evm_calloc(size_t n, size_t sz) {
    void * p = malloc(n * sz);
    ASSUME(p != 0);
    memset(p, 0, n * sz);
    ++evm_live;
    return p;
}
void * evm_malloc(size_t sz) {
    void * p = malloc(sz);
    ASSUME(p != 0);
    ++evm_live;
    return p;
}
void evm_free_(void * p) {
    if (p) {
        --evm_live;
    }
    free(p);
}

#ifndef SCALE
#define SCALE 1LL
#endif
#ifndef NEV
#define NEV 3
#endif
#ifndef MAXEV
#define MAXEV 6
#endif

struct mev_s { int32_t id; int64_t ts; int pending; int fresh; int runs; uint8_t action; };
static struct mev_s mev[MAXEV];
static int nmev;
static struct embc_evm_s * evm;
static int64_t now;
#ifndef EVM_ANY
static int runs;
static bool processing;
#endif

#ifndef EVM_ANY
enum { A_NONE, A_CANCEL_0, A_CANCEL_1, A_CANCEL_2, A_PAST, A_NOW, A_LATER, A_CANCEL_SCHEDULE, A_SELF, A_COUNT };

static void cbk(void * user, int32_t id);

static void schedule(int64_t ts, uint8_t action) {
    int i = nmev++;
    mev[i].ts = ts;
    mev[i].action = action;
    mev[i].fresh = processing;
    int32_t id = embc_evm_schedule(evm, ts, cbk, &mev[i]);
    CHECK(id != 0, "scheduling gives an event id");
    for (int j = 0; j < MAXEV; ++j) {
        CHECK(j >= i || !mev[j].pending || mev[j].id != id, "pending events have distinct ids");
    }
    mev[i].id = id;
    mev[i].pending = 1;
}

static void cancel(int i) {
    int32_t id = mev[i].id;
    if (mev[i].pending) {
        CHECK(embc_evm_cancel(evm, id) == 0, "cancel succeeds");
        mev[i].pending = 0;
    }
}

static void cbk(void * user, int32_t id) {
    struct mev_s * e = 0;
    int at = 0;
    for (int i = 0; i < MAXEV; ++i) {
        if (user == &mev[i]) {
            e = &mev[i];
            at = i;
        }
    }
    CHECK(processing && e != 0, "callbacks run with their own user data while processing");
    CHECK(e->pending, "an event runs only while it is pending");
    CHECK(e->id == id, "the callback gets the id of the event");
    CHECK(e->ts <= now, "only events whose time has come run");
    for (int i = 0; i < MAXEV; ++i) {
        if (i < nmev && i != at && mev[i].pending && !mev[i].fresh) {
            CHECK(mev[i].ts > e->ts || (mev[i].ts == e->ts && i > at), "events run in time order, ties in scheduling order");
        }
    }
    e->pending = 0;
    ++e->runs;
    ++runs;
    switch (e->action) {
        case A_CANCEL_0: cancel(0); break;
        case A_CANCEL_1: cancel(1); break;
        case A_CANCEL_2: cancel(2); break;
        case A_PAST: schedule(5 * SCALE, A_NONE); break;
        case A_NOW: schedule(now, A_NONE); break;
        case A_LATER: schedule(now + 1, A_NONE); break;
        case A_CANCEL_SCHEDULE: cancel(1); schedule(15 * SCALE, A_NONE); break;
        case A_SELF: CHECK(embc_evm_cancel(evm, id) == 0, "cancelling the running event is harmless"); break;
        default: break;
    }
}

static void check_next(void) {
    int64_t first = EMBC_TIME_MIN;
    bool any = false;
    for (int i = 0; i < MAXEV; ++i) {
        if (i < nmev && mev[i].pending && (!any || mev[i].ts < first)) {
            first = mev[i].ts;
            any = true;
        }
    }
    CHECK(embc_evm_time_next(evm) == first, "the next time is that of the earliest pending event");
    int64_t left = embc_evm_interval_next(evm, now);
    CHECK(left == (!any ? -1 : first <= now ? 0 : first - now), "the interval matches the earliest pending event");
}

static void process(int64_t t) {
    now = t;
    runs = 0;
    for (int i = 0; i < MAXEV; ++i) {
        mev[i].fresh = 0;
    }
    processing = true;
    int32_t n = embc_evm_process(evm, t);
    processing = false;
    CHECK(n == runs, "the number of processed events is returned");
    for (int i = 0; i < MAXEV; ++i) {
        if (i < nmev) {
            CHECK(!mev[i].pending || mev[i].fresh || mev[i].ts > t, "every due event has run");
            CHECK(mev[i].runs <= 1, "no event runs twice");
        }
    }
    check_next();
}

static void finish(void) {
    check_next();
    process(20 * SCALE);
    process(20 * SCALE);
    for (int i = 0; i < MAXEV; ++i) {
        CHECK(i >= nmev || !mev[i].pending || mev[i].ts > 20 * SCALE, "an event that became due in a callback runs by the next processing");
    }
    process(40 * SCALE);
    process(60 * SCALE);
    CHECK(embc_evm_time_next(evm) == EMBC_TIME_MIN && embc_evm_interval_next(evm, 60 * SCALE) == -1, "nothing is pending");
    if (nmev < MAXEV) {
        schedule(70 * SCALE, A_NONE);
        check_next();
    }
    WITNESS();
    embc_evm_free(evm);
    CHECK(evm_live == 0 && vh_live == 0, "freeing the manager releases all events");
}

static void choose_ts(int i);

static void with_ts(int i, int64_t ts) {
    schedule(ts, A_NONE);
    choose_ts(i + 1);
}

static uint8_t act_who;
static void choose_action(uint8_t c, int a) {
    if (a == A_COUNT) {
        return;
    }
    if (c == a) {
        mev[act_who].action = a;
        finish();
    } else {
        choose_action(c, a + 1);
    }
}

static void choose_who(uint8_t c, int w) {
    if (w == NEV) {
        return;
    }
    if (c == w) {
        act_who = w;
        choose_action(nd_u8(), 0);
    } else {
        choose_who(c, w + 1);
    }
}

#ifndef T0
#define T0 nd_below8(3)
#endif
#ifndef T1
#define T1 nd_below8(3)
#endif
static void choose_ts(int i) {
    if (i == NEV) {
#ifdef OUTSIDE_CANCEL
        uint8_t c = nd_below8(NEV);
        for (int j = 0; j < NEV; ++j) {
            if (c == j) {
                cancel(j);
                CHECK(embc_evm_cancel(evm, 0) == 0, "id 0 is ignored");
                if (nd_bool()) {
                    schedule(15 * SCALE, A_NONE);
                    finish();
                } else {
                    finish();
                }
                return;
            }
        }
#else
        choose_who(nd_u8(), 0);
#endif
        return;
    }
    uint8_t c = i == 0 ? T0 : i == 1 ? T1 : nd_below8(3);
    if (c == 0) {
        with_ts(i, 10 * SCALE);
    } else if (c == 1) {
        with_ts(i, 20 * SCALE);
    } else {
        with_ts(i, 30 * SCALE);
    }
}

void h_evm(void) {
    vh_init();
    evm = embc_evm_allocate();
    choose_ts(0);
}

/* times that are ignored */
void h_evm_ignored(void) {
    vh_init();
    evm = embc_evm_allocate();
    int64_t t = nd_i64();
    ASSUME(t <= 0);
    CHECK(embc_evm_schedule(evm, t, cbk, 0) == 0, "times up to zero are ignored");
    CHECK(embc_evm_time_next(evm) == EMBC_TIME_MIN, "nothing is pending");
    WITNESS();
}

#else
/* any times */
static int any_ran[NEV];
static int any_count;
static int64_t any_ts[NEV];
static int any_last;

static void any_run(int i) {
    CHECK(any_ts[i] <= now, "only events whose time has come run");
    CHECK(!any_ran[i], "no event runs twice");
    CHECK(any_last < 0 || any_ts[any_last] < any_ts[i] || (any_ts[any_last] == any_ts[i] && any_last < i), "events run in time order, ties in scheduling order");
    any_ran[i] = 1;
    any_last = i;
    ++any_count;
}
static void any0(void * user, int32_t id) { CHECK(user == &any_ts[0] && id == mev[0].id, "own user data and id"); any_run(0); }
static void any1(void * user, int32_t id) { CHECK(user == &any_ts[1] && id == mev[1].id, "own user data and id"); any_run(1); }

void h_evm_any(void) {
    vh_init();
    evm = embc_evm_allocate();
    int64_t lim = (int64_t) 1 << 62;
    now = nd_i64();
    any_ts[0] = nd_i64();
    any_ts[1] = nd_i64();
    ASSUME(any_ts[0] > 0 && any_ts[0] < lim && any_ts[1] > 0 && any_ts[1] < lim && now > -lim && now < lim);
    any_last = -1;
    mev[0].id = embc_evm_schedule(evm, any_ts[0], any0, &any_ts[0]);
    mev[1].id = embc_evm_schedule(evm, any_ts[1], any1, &any_ts[1]);
    int64_t first = any_ts[0] < any_ts[1] ? any_ts[0] : any_ts[1];
    CHECK(embc_evm_time_next(evm) == first, "the next time is that of the earliest pending event");
    CHECK(embc_evm_interval_next(evm, now) == (first <= now ? 0 : first - now), "the interval matches the earliest pending event");
    CHECK(embc_evm_cancel(evm, nd_bool() ? mev[0].id : mev[1].id) == 0, "cancel");
    WITNESS();
}

#endif
