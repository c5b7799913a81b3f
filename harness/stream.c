/* C36: memory source and sink of the asynchronous stream. */
#include "vh.h"
#include "embc/stream/async_source.h"
#include "embc/stream/async_sink.h"
#include "embc/ec.h"

#if defined(VH_CBMC) && defined(BIG)
/* large copies: the range only */
static uint8_t const * copied_from;
void * memcpy(void * d, void const * s, size_t n) {
    copied_from = s;
    __CPROVER_assert(__CPROVER_r_ok(s, n), "PROP: a copy stays inside the source");
    __CPROVER_assert(__CPROVER_w_ok(d, n), "PROP: a copy stays inside the buffer");
    return d;
}
#elif defined(VH_CBMC)
/* the built-in model loses precision when the size is symbolic */
void * memcpy(void * d, void const * s, size_t n) {
    for (size_t i = 0; i < n; ++i) { ((uint8_t *) d)[i] = ((uint8_t const *) s)[i]; }
    return d;
}
#endif

#ifndef LMAX
#define LMAX 4
#endif
#ifndef STEPS
#define STEPS 6
#endif

static uint8_t data[LMAX];
static unsigned L;

/* ------------------------------------------------ source, modelled consumer */

static struct embc_stream_source_s src;
static struct embc_stream_consumer_s con;
static uint8_t src_buf[3];
static uint8_t con_buf[4];
static int done_count;
static uint8_t done_status;

static struct { bool active; uint8_t cid; uint16_t length; uint8_t const * ptr; unsigned at; } pend[2]; /* 0 source memory, 1 consumer memory */
static bool is_open, close_seen, close_pending, close_done;
static uint8_t close_status;
static unsigned got, acked;
static unsigned req_len;
static uint8_t * req_ptr;
static int cause;                 /* 0 none, 1 abort, 2 failed write */
static uint8_t cause_status;

static void on_done(void * user_data, uint8_t status) {
    CHECK(user_data == &done_count, "done gets its own user data");
    ++done_count;
    CHECK(done_count == 1, "the completion is reported once");
    done_status = status;
}

static void respond_write(int i, uint8_t status) {
    struct embc_stream_transaction_s t;
    memset(&t, 0, sizeof(t));
    t.type = EMBC_STREAM_IOCTL_WRITE;
    t.consumer_transaction_id = pend[i].cid;
    t.length = pend[i].length;
    t.data.ioctl_write.ptr = pend[i].ptr;
    pend[i].active = false;
    for (unsigned k = 0; k < LMAX; ++k) {
        CHECK((k >= t.length) || (pend[i].ptr[k] == data[pend[i].at + k]), "a write stays valid until its response");
    }
    t.status = status;
    if (!status) { acked += t.length; }
    if (status && !close_seen) { cause = 2; cause_status = status; }
    bool was = close_seen;
    src.producer.send(&src.producer, &t);
    if (status || (acked >= L)) { CHECK(close_seen, "the last or a failed write closes the stream"); }
    else { CHECK(close_seen == was, "the stream is closed only after all data"); }
}

static void respond_close(void) {
    struct embc_stream_transaction_s t;
    memset(&t, 0, sizeof(t));
    t.type = EMBC_STREAM_IOCTL_CLOSE;
    t.status = close_status;
    close_pending = false;
    close_done = true;
    int before = done_count;
    src.producer.send(&src.producer, &t);
    CHECK(done_count == before + 1, "the close response completes the transfer");
    CHECK(done_status == close_status, "the completion has the status of the close");
}

static inline void keep_write(int i, struct embc_stream_transaction_s * t) {
    pend[i].active = true;
    pend[i].cid = t->consumer_transaction_id;
    pend[i].length = t->length;
    pend[i].ptr = t->data.ioctl_write.ptr;
    pend[i].at = got;
    got += t->length;
    if (nd_bool()) { respond_write(i, 0); }
}

static void con_send(struct embc_stream_consumer_s * self, struct embc_stream_transaction_s * t) {
    CHECK(self == &con, "the consumer is the one set");
    switch (t->type) {
        case EMBC_STREAM_IOCTL_OPEN: {
            CHECK(!is_open, "opened once");
            is_open = true;
            t->file_id = 1;
            src.producer.send(&src.producer, t);
            break;
        }
        case EMBC_STREAM_IOCTL_WRITE: {
            CHECK(req_len != 0, "data is sent only on request");
            CHECK(!close_seen, "no data after the close");
            CHECK(t->length >= 1, "a write has data");
            CHECK(t->length <= req_len, "no write exceeds what was requested");
            CHECK(got + t->length <= L, "no data past the end of the source");
            CHECK((got + t->length == L) || !req_ptr || (t->length == req_len), "only the last write is short");
            for (unsigned k = 0; k < LMAX; ++k) {
                CHECK((k >= t->length) || (got + k >= L) || (t->data.ioctl_write.ptr[k] == data[got + k]), "the source bytes are sent in order");
            }
            CHECK(!req_ptr || (t->data.ioctl_write.ptr == req_ptr), "the consumer's buffer is used");
            CHECK(t->consumer_transaction_id == (req_ptr ? 7 : 0), "the request's identifier is returned");
            req_len = 0;
            if (req_ptr) { keep_write(1, t); } else { keep_write(0, t); }
            break;
        }
        case EMBC_STREAM_IOCTL_CLOSE:
            CHECK(!close_seen, "the stream is closed once");
            close_seen = true;
            close_status = t->status;
            CHECK(close_status == ((cause == 1) ? EMBC_ERROR_ABORTED : ((cause == 2) ? cause_status : 0)), "the close tells why the transfer ended");
            if (nd_bool()) { respond_close(); } else { close_pending = true; }
            break;
        default:
            CHECK(0, "unexpected transaction");
            break;
    }
}

static void request(unsigned length, uint8_t * ptr, uint16_t mtu) {
    struct embc_stream_transaction_s t;
    memset(&t, 0, sizeof(t));
    t.type = EMBC_STREAM_EVENT_WRITE_REQUEST;
    t.length = (uint16_t) length;
    if (length) { t.consumer_transaction_id = 7; t.data.event_write_request_consumer_buffer.ptr = ptr; }
    else {
        t.data.event_write_request_producer_buffer.mtu = mtu;
        t.data.event_write_request_producer_buffer.transactions_max = 1;
    }
    req_len = length ? length : (mtu ? mtu : LMAX + 8);
    req_ptr = ptr;
    unsigned before = got;
    bool more = (got < L) && !close_seen;
    src.producer.send(&src.producer, &t);
    CHECK((got > before) == more, "a request is answered with data while there is any");
    req_len = 0;
}

void h_stream_source(void) {
    ND_BYTES(data, LMAX);
    L = 1 + nd_below8(LMAX);
    con.send = con_send;
#ifndef OWN
#define OWN nd_bool()
#endif
    bool own = OWN;
    embc_stream_source_initialize(&src, own ? src_buf : NULL, own ? sizeof(src_buf) : 0);
    embc_stream_source_set_consumer(&src, &con);
    CHECK(embc_stream_source_get_producer(&src) == &src.producer, "the producer interface is that of the source");
    embc_stream_source_configure(&src, data, L, on_done, &done_count);
    CHECK(!is_open, "nothing is sent before the open");
    embc_stream_source_open(&src);
    CHECK(is_open, "open opens the consumer");
    for (unsigned k = 0; k < STEPS; ++k) {
        uint8_t a = nd_below8(6);
        if (close_done) { break; }
        if ((a == 0) && !pend[0].active && !close_seen) {
            request(0, NULL, nd_below8(4));
        } else if ((a == 1) && !pend[1].active && !close_seen) {
            request(1 + nd_below8(4), con_buf, 0);
        } else if ((a == 2) && pend[0].active) {
            respond_write(0, nd_bool() ? EMBC_ERROR_FULL : 0);
        } else if ((a == 3) && pend[1].active) {
            respond_write(1, nd_bool() ? EMBC_ERROR_IO : 0);
        } else if ((a == 4) && close_pending && !pend[0].active && !pend[1].active) {
            respond_close();
        } else if ((a == 5) && !close_done) {
            struct embc_stream_transaction_s t;
            memset(&t, 0, sizeof(t));
            t.type = EMBC_STREAM_EVENT_ABORT;
            if (!close_seen) { cause = 1; }
            src.producer.send(&src.producer, &t);
            CHECK(close_seen, "an abort closes the stream");
        }
    }
    CHECK(done_count == (close_done ? 1 : 0), "the completion is reported exactly when the close is answered");
    CHECK(!close_seen || cause || (acked == L), "a transfer that ends well moved every byte");
    WITNESS();
}

/* ------------------------------------------------ sink, modelled producer */

static struct embc_stream_sink_s sink;
static struct embc_stream_producer_s prod;
static uint8_t dst[2][4];
static uint8_t sink_buf[2];
static bool p_open, sink_has_buf, in_write;
static int cur;                     /* current destination, -1 none */
static unsigned dlen, stored;
static int n_resp, n_req, n_con, n_dis, n_done, n_wfn;
static uint8_t resp_status;
static uint8_t expect[8];

static void prod_send(struct embc_stream_producer_s * self, struct embc_stream_transaction_s * t) {
    CHECK(self == &prod, "the producer is the one set");
    switch (t->type) {
        case EMBC_STREAM_IOCTL_OPEN:
        case EMBC_STREAM_IOCTL_WRITE:
        case EMBC_STREAM_IOCTL_CLOSE:
            ++n_resp;
            resp_status = t->status;
            break;
        case EMBC_STREAM_EVENT_WRITE_REQUEST:
            ++n_req;
            CHECK(p_open, "data is requested only while open");
            if (sink_has_buf) {
                CHECK((t->length == sizeof(sink_buf)) && (t->data.event_write_request_consumer_buffer.ptr == sink_buf), "the sink offers its buffer");
            } else {
                CHECK((t->length == 0) && (t->data.event_write_request_producer_buffer.mtu > 0)
                      && (t->data.event_write_request_producer_buffer.transactions_max == 1), "the sink asks for one write");
            }
            break;
        case EMBC_STREAM_EVENT_CONNECT: ++n_con; CHECK(p_open, "events only while open"); break;
        case EMBC_STREAM_EVENT_DISCONNECT: ++n_dis; break;
        default: CHECK(0, "unexpected transaction"); break;
    }
}

static void on_sink_done(void * user_data, uint8_t const * buffer, uint32_t length) {
    ++n_done;
    CHECK(user_data == &n_done, "done gets its own user data");
    CHECK(buffer == ((cur >= 0) ? dst[cur] : NULL), "done gives the destination");
    CHECK(length == stored, "done gives the number of bytes received");
}

static uint8_t const * wfn_ptr;
static unsigned wfn_len;
static void on_sink_write(void * user_data, uint8_t const * buffer, uint32_t length) {
    ++n_wfn;
    CHECK(user_data == &n_wfn, "the write function gets its own user data");
    CHECK((buffer == wfn_ptr) && (length == wfn_len), "the write function gets the data");
}

static void sink_receive(int which, unsigned len) {
    int con0 = n_con, dis0 = n_dis, req0 = n_req;
    bool had = cur >= 0;
    cur = which;
    dlen = len;
    stored = 0;
    embc_stream_sink_receive(&sink, (which >= 0) ? dst[which] : NULL, len, on_sink_done, &n_done);
    CHECK((n_con - con0) == ((!had && (which >= 0) && p_open) ? 1 : 0), "a new destination connects an open stream");
    CHECK((n_req - req0) == (n_con - con0), "and asks for data");
    CHECK((n_dis - dis0) == ((had && (which < 0)) ? 1 : 0), "removing the destination disconnects");
}

void h_stream_sink(void) {
    static struct embc_stream_transaction_s t;
    uint8_t wdata[4];
    bool ended = false;
    prod.send = prod_send;
    sink_has_buf = nd_bool();
    bool with_fn = nd_bool();
    cur = -1;
    ND_BYTES(dst[0], sizeof(dst));
    embc_stream_sink_initialize(&sink, sink_has_buf ? sink_buf : NULL, sink_has_buf ? sizeof(sink_buf) : 0);
    embc_stream_sink_set_producer(&sink, &prod);
    if (with_fn) { embc_stream_sink_set_write_fn(&sink, on_sink_write, &n_wfn); }
    CHECK(embc_stream_sink_get_consumer(&sink) == &sink.consumer, "the consumer interface is that of the sink");
    for (unsigned k = 0; k < STEPS; ++k) {
        uint8_t a = nd_below8(4);
        int resp0 = n_resp, req0 = n_req, done0 = n_done, wfn0 = n_wfn;
        memset(&t, 0, sizeof(t));
        if (a == 0) {
            t.type = EMBC_STREAM_IOCTL_OPEN;
            p_open = true;
            stored = 0;
            ended = false;
            sink.consumer.send(&sink.consumer, &t);
            CHECK((n_resp == resp0 + 1) && (resp_status == 0), "an open is answered");
            CHECK((n_req - req0) == ((cur >= 0) ? 1 : 0), "data is requested after the open");
        } else if ((a == 1) && p_open && !ended) {
            unsigned n = 1 + nd_below8(4);
            uint8_t before[4], beyond;
            ND_BYTES(wdata, 4);
            if (cur >= 0) { memcpy(before, dst[cur], 4); }
            beyond = dst[1 - ((cur >= 0) ? cur : 0)][0];
            t.type = EMBC_STREAM_IOCTL_WRITE;
            t.length = (uint16_t) n;
            t.data.ioctl_write.ptr = wdata;
            wfn_ptr = wdata;
            wfn_len = n;
            bool fits = stored + n <= dlen;
            sink.consumer.send(&sink.consumer, &t);
            CHECK((n_resp == resp0 + 1), "a write is answered once");
            CHECK(n_wfn == wfn0 + (with_fn ? 1 : 0), "the write function sees each write");
            if (cur >= 0) {
                CHECK((resp_status == 0) == fits, "a write that does not fit is reported");
                CHECK(n_req > req0, "more data is requested");
                for (unsigned i = 0; i < 4; ++i) {
                    uint8_t e = before[i];
                    if (fits && (i >= stored) && (i < stored + n)) { e = wdata[i - stored]; }
                    CHECK(dst[cur][i] == e, "exactly the written bytes are stored, in order");
                }
                CHECK(dst[1 - cur][0] == beyond, "nothing else is written");
                if (fits) { stored += n; } else { ended = true; }
            }
        } else if ((a == 2) && p_open) {
            t.type = EMBC_STREAM_IOCTL_CLOSE;
            t.status = nd_bool() ? EMBC_ERROR_ABORTED : 0;
            uint8_t s = t.status;
            p_open = false;
            sink.consumer.send(&sink.consumer, &t);
            CHECK((n_resp == resp0 + 1) && (resp_status == s), "a close is answered with its status");
            CHECK(n_done == done0 + (sink.done_fn ? 1 : 0), "a close completes the reception once");
            CHECK(n_req == req0, "nothing is requested after the close");
        } else if (a == 3) {
            int w = (int) nd_below8(3) - 1;
            ended = false;
            sink_receive(w, (w >= 0) ? nd_below8(5) : 0);
        }
        if ((a != 2) || !p_open) { CHECK((a == 2) || (n_done == done0), "completion is reported only at the close"); }
    }
    WITNESS();
}

/* ------------------------------------------------ source connected to sink */

#ifndef SRCBUF
#define SRCBUF 2
#endif
#ifndef SINKBUF
#define SINKBUF 0
#endif
#ifndef DST
#define DST 4
#endif

static int e_src_done, e_sink_done;
static uint8_t e_status;
static uint32_t e_len;
static uint8_t e_out[LMAX + 2];
static uint8_t e_dst[DST];

static void e_on_src(void * user_data, uint8_t status) { (void) user_data; ++e_src_done; e_status = status; }
static void e_on_sink(void * user_data, uint8_t const * buffer, uint32_t length) {
    (void) user_data;
    ++e_sink_done;
    e_len = length;
    CHECK(buffer == e_dst, "done gives the destination");
}

void h_stream_both(void) {
    static uint8_t b1[SRCBUF + 1], b2[SINKBUF + 1];
    ND_BYTES(data, LMAX);
    embc_stream_source_initialize(&src, SRCBUF ? b1 : NULL, SRCBUF);
    embc_stream_sink_initialize(&sink, SINKBUF ? b2 : NULL, SINKBUF);
    embc_stream_source_set_consumer(&src, embc_stream_sink_get_consumer(&sink));
    embc_stream_sink_set_producer(&sink, embc_stream_source_get_producer(&src));
#ifndef NTR
#define NTR 2
#endif
    for (unsigned k = 0; k < NTR; ++k) {
        for (unsigned n = 1; n <= LMAX; ++n) {
            if (nd_bool()) { continue; }
            int s0 = e_src_done, d0 = e_sink_done;
            for (unsigned i = 0; i < DST; ++i) { e_dst[i] = 0; }
            embc_stream_sink_receive(&sink, e_dst, DST, e_on_sink, NULL);
            embc_stream_source_configure(&src, data + LMAX - n, n, e_on_src, NULL);
            embc_stream_source_open(&src);
            CHECK(e_src_done == s0 + 1, "the source completes exactly once");
            CHECK(e_sink_done == d0 + 1, "the sink completes exactly once");
            CHECK((e_status == 0) == (n <= DST), "the status tells whether the sink was large enough");
            CHECK((n > DST) || (e_len == n), "all bytes are moved");
            CHECK(e_len <= ((n < DST) ? n : DST), "never more bytes than there are or fit");
            for (unsigned i = 0; i < DST; ++i) {
                CHECK(e_dst[i] == ((i < e_len) ? data[LMAX - n + i] : 0), "the sink has exactly the source bytes in order");
            }
        }
    }
    WITNESS();
}

void h_stream_close(void) {
    con.send = con_send;
    is_open = true;
    cause = 2;
    cause_status = nd_u8();
    embc_stream_source_initialize(&src, NULL, 0);
    embc_stream_source_configure(&src, data, 1, on_done, &done_count);
    embc_stream_close(&con, nd_u8(), cause_status);
    CHECK(close_seen, "close closes the stream");
    WITNESS();
}

#ifdef BIG
/* lengths beyond 16 bits: how the source is divided */
static uint8_t big[BIG];
static uint8_t big_to[65535];
static uint32_t big_L, big_got, big_acked;
static uint16_t big_req;
static bool big_closed;

static void big_send(struct embc_stream_consumer_s * self, struct embc_stream_transaction_s * t) {
    (void) self;
    if (t->type == EMBC_STREAM_IOCTL_WRITE) {
        uint32_t left = big_L - big_got;
        CHECK(left > 0, "no data past the end of the source");
        CHECK(t->length == ((left < big_req) ? left : big_req), "a write has what was requested or the rest");
        CHECK(t->data.ioctl_write.ptr == big_to, "a write has what was requested");
#ifdef VH_CBMC
        CHECK(copied_from == big + big_got, "a write continues where the last one ended");
#endif
        big_got += t->length;
    } else if (t->type == EMBC_STREAM_IOCTL_CLOSE) {
        CHECK(big_acked == big_L, "the stream is closed only after all data");
        CHECK(t->status == 0, "the stream closes well");
        big_closed = true;
    }
}

void h_stream_big(void) {
    con.send = big_send;
    big_L = nd_u32();
    ASSUME(big_L >= 1 && big_L <= BIG);
    embc_stream_source_initialize(&src, NULL, 0);
    embc_stream_source_set_consumer(&src, &con);
    embc_stream_source_configure(&src, big, big_L, NULL, NULL);
    embc_stream_source_open(&src);
    for (unsigned k = 0; k < STEPS; ++k) {
        struct embc_stream_transaction_s t;
        memset(&t, 0, sizeof(t));
        t.type = EMBC_STREAM_EVENT_WRITE_REQUEST;
        t.length = big_req = nd_u16();
        ASSUME(big_req > 0);
        t.data.event_write_request_consumer_buffer.ptr = big_to;
        uint32_t before = big_got;
        src.producer.send(&src.producer, &t);
        CHECK(big_got > before || before == big_L, "every request gets data until the end");
        if (big_got > before) {
            big_acked = big_got;
            t.status = 0;
            src.producer.send(&src.producer, &t);
        }
        CHECK(big_closed == (big_acked == big_L), "the stream closes after the last byte");
    }
    WITNESS();
}
#endif
