/* State machine: any table against a reference interpreter. */
#include "vh.h"
#include "embc/fsm.h"

#ifndef NT
#define NT 3
#endif
#define NS 3
#ifndef NEVENTS
#define NEVENTS 2
#endif
#ifndef NPOST
#define NPOST 1
#endif

/* what the handlers were called for: kind, argument, event, state */
struct rec_s { uint8_t kind; uint8_t which; int8_t event; int8_t state; int8_t ret; };
enum { K_GUARD = 1, K_STATE };
#define NREC 16
static struct rec_s exp_[NREC];
static int exp_n, got_n;

static struct embc_fsm_transition_s tr[NT];
static int8_t gret[NT];         /* what the guard of transition i answers */
/* the post_at[k]-th handler call posts post_ev[k] */
static uint8_t post_at[NPOST];
static int8_t post_ev[NPOST];

static int8_t called(struct embc_fsm_s * self, uint8_t kind, uint8_t which, int8_t event) {
    int n = got_n++;
    CHECK(n < exp_n, "no handler is called without need");
    ASSUME(n < NREC);
    CHECK(exp_[n].kind == kind && exp_[n].which == which && exp_[n].event == event, "guards, exit and entry handlers are called in order, with their event");
    CHECK(exp_[n].state == self->state, "handlers see the old state until it was left, and then the new one");
    for (int k = 0; k < NPOST; ++k) {
        if (post_at[k] == n) {
            if (post_ev[k] == EMBC_EVENT_RESET) {
                embc_fsm_reset(self);
            } else {
                embc_fsm_event(self, post_ev[k]);
            }
        }
    }
    return exp_[n].ret;
}

/* guards are told apart by the order of their calls, state handlers by state */
static embc_fsm_state_t guard(struct embc_fsm_s * self, embc_fsm_event_t event) { return called(self, K_GUARD, 0, event); }
static embc_fsm_state_t on0(struct embc_fsm_s * self, embc_fsm_event_t event) { (void) called(self, K_STATE, 0, event); return 1; }
#ifdef TWO_STATES
#define on1 0
#else
static embc_fsm_state_t on1(struct embc_fsm_s * self, embc_fsm_event_t event) { (void) called(self, K_STATE, 1, event); return 2; }
#endif

static struct embc_fsm_state_s const states[NS] = {
    {.state = 0, .name = "s0", .on_enter = on0, .on_exit = on0},
    {.state = 1, .name = "s1", .on_enter = on1, .on_exit = on1},
    {.state = 2, .name = "s2", .on_enter = 0, .on_exit = 0},
};

/* reference */
static int8_t mstate;
#define MQ 16
static int8_t mq[MQ];
static int mq_head, mq_tail;

static void expect(uint8_t kind, uint8_t which, int8_t event, int8_t ret) {
    int n = exp_n++;
    ASSUME(n < NREC);
    exp_[n].kind = kind;
    exp_[n].which = which;
    exp_[n].event = event;
    exp_[n].state = mstate;
    exp_[n].ret = ret;
    for (int k = 0; k < NPOST; ++k) {
        if (post_at[k] == n) {
            ASSUME(mq_head < MQ);
            mq[mq_head++] = post_ev[k];
        }
    }
}

static void m_handle(int8_t event) {
    for (int i = 0; i < NT; ++i) {
        if ((tr[i].current == mstate || tr[i].current == EMBC_STATE_ANY) && (tr[i].event == event || tr[i].event == EMBC_EVENT_ANY)) {
            int8_t next = tr[i].next;
            if (tr[i].handler) {
                expect(K_GUARD, 0, event, gret[i]);
                if (gret[i] == EMBC_STATE_SKIP) {
                    continue;
                }
                if (gret[i] == EMBC_STATE_NULL) {
                    return;
                }
                if (gret[i] != EMBC_STATE_ANY) {
                    next = gret[i];
                }
            }
            if (next == EMBC_STATE_NULL) {
                return;
            }
            if (mstate == 0 || (on1 && mstate == 1)) {
                expect(K_STATE, mstate, EMBC_EVENT_EXIT, 0);
            }
            mstate = next;
            if (mstate == 0 || (on1 && mstate == 1)) {
                expect(K_STATE, mstate, EMBC_EVENT_ENTER, 0);
            }
            return;
        }
    }
}

static void m_event(int8_t event) {
    mq[mq_head++] = event;
    for (int n = 0; n < 1 + NPOST; ++n) {
        if (mq_tail < mq_head) {
            m_handle(mq[mq_tail++]);
        }
    }
    mq_head = mq_tail = 0;
}

static int8_t any_event(void) {
    int8_t e = (int8_t) nd_u8();
    ASSUME(e == 0 || e == 1 || e == EMBC_EVENT_RESET);
    return e;
}

static void table(void) {
    for (int i = 0; i < NT; ++i) {
        int8_t c = (int8_t) nd_u8();
        ASSUME(c >= EMBC_STATE_NULL && c < NS);
        tr[i].current = c;
        c = (int8_t) nd_u8();
        ASSUME(c == EMBC_STATE_NULL || (c >= 0 && c < NS));
        tr[i].next = c;
        c = (int8_t) nd_u8();
        ASSUME(c == EMBC_EVENT_ANY || c == EMBC_EVENT_RESET || c == 0 || c == 1);
        tr[i].event = c;
        tr[i].handler = nd_bool() ? guard : 0;
        c = (int8_t) nd_u8();
        ASSUME(c >= EMBC_STATE_SKIP && c < NS);
        gret[i] = c;
    }
    for (int k = 0; k < NPOST; ++k) {
        post_at[k] = nd_u8();
        post_ev[k] = any_event();
    }
}

static struct embc_fsm_s fsm;

void h_fsm(void) {
    table();
    fsm.states = states;
    fsm.states_count = NS;
    fsm.transitions = tr;
    fsm.transitions_count = NT;
    mstate = EMBC_STATE_NULL;
    m_event(EMBC_EVENT_RESET);
    if (mstate < 0) {
        EXPECT_FATAL(embc_fsm_initialize(&fsm), "a table without initial state is refused");
        return;
    }
    embc_fsm_initialize(&fsm);
    CHECK(got_n == exp_n, "all handlers are called");
    CHECK(fsm.state == mstate, "reset enters the initial state");
    for (int n = 0; n < NEVENTS; ++n) {
        exp_n = got_n = 0;
        int8_t e = any_event();
        m_event(e);
        if (e == EMBC_EVENT_RESET) {
            embc_fsm_reset(&fsm);
        } else {
            embc_fsm_event(&fsm, e);
        }
        CHECK(got_n == exp_n, "all handlers are called");
        CHECK(fsm.state == mstate, "the machine is in the state its table says");
    }
    WITNESS();
}

/* from any state: one event, posts from several handlers */
void h_fsm_step(void) {
    table();
    fsm.name = "fsm";
    fsm.states = states;
    fsm.states_count = NS;
    fsm.transitions = tr;
    fsm.transitions_count = NT;
    fsm.events.head = fsm.events.tail = EMBC_FSM_EVENT_FIFO_SIZE - 1;
    mstate = (int8_t) nd_below8(NS);
    fsm.state = mstate;
    int8_t e = any_event();
    m_event(e);
    embc_fsm_event(&fsm, e);
    CHECK(got_n == exp_n, "all handlers are called");
    CHECK(fsm.state == mstate, "the machine is in the state its table says");
    CHECK(fsm.reentrant == 0, "the machine is ready for the next event");
    WITNESS();
}

#ifdef FSM_QUEUE
/* the queue: all events posted by a handler are run, in order, up to its size */
static int burst, ran, reset_at;
static int8_t ran_ev[16];
static embc_fsm_state_t poster(struct embc_fsm_s * self, embc_fsm_event_t event) {
    if (event == 100) {
        for (int i = 0; i < 8; ++i) {
            if (i < burst) {
                if (reset_at == i) {
                    embc_fsm_reset(self);
                } else {
                    embc_fsm_event(self, (embc_fsm_event_t) (10 + i));
                }
                CHECK(ran == 0, "posted events run after the current one completes");
            }
        }
        return EMBC_STATE_NULL;
    }
    ran_ev[ran++] = event;
    return EMBC_STATE_NULL;
}

void h_fsm_queue(void) {
    static struct embc_fsm_transition_s const t[] = {{EMBC_STATE_ANY, EMBC_STATE_NULL, EMBC_EVENT_ANY, poster}};
    fsm.name = "fsm";
    fsm.states = states;
    fsm.states_count = NS;
    fsm.transitions = t;
    fsm.transitions_count = 1;
    fsm.events.head = fsm.events.tail = nd_below8(EMBC_FSM_EVENT_FIFO_SIZE);
    burst = nd_below8(9);
    reset_at = nd_below8(9);
    if (burst >= EMBC_FSM_EVENT_FIFO_SIZE) {
        EXPECT_FATAL(embc_fsm_event(&fsm, 100), "more events than the queue holds are fatal");
        return;
    }
    embc_fsm_event(&fsm, 100);
    CHECK(ran == burst, "every posted event runs");
    for (int i = 0; i < 8; ++i) {
        CHECK(i >= burst || ran_ev[i] == (i == reset_at ? EMBC_EVENT_RESET : 10 + i), "posted events run in order");
    }
    WITNESS();
}

#endif

void h_fsm_bad_states(void) {
    static struct embc_fsm_state_s s[NS];
    for (int i = 0; i < NS; ++i) {
        s[i].state = (int8_t) nd_u8();
    }
    static struct embc_fsm_transition_s const t[] = {{EMBC_STATE_ANY, 1, EMBC_EVENT_RESET, 0}};
    fsm.states = s;
    fsm.states_count = NS;
    fsm.transitions = t;
    fsm.transitions_count = 1;
    if (s[0].state != 0 || s[1].state != 1 || s[2].state != 2) {
        EXPECT_FATAL(embc_fsm_initialize(&fsm), "states out of place are refused");
        return;
    }
    embc_fsm_initialize(&fsm);
    CHECK(fsm.state == 1, "initial state");
    WITNESS();
}
