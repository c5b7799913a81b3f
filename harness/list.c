/* Doubly linked list: arbitrary operation histories over two lists against a sequence model. */
#include "vh.h"
#include "embc/collections/list.h"

#ifndef NEL
#define NEL 4
#endif
#ifndef NOPS
#define NOPS 4
#endif

struct el_s {
    uint32_t id;
    struct embc_list_s item;
};

/* separate objects, so that the encoding keeps every pointer target distinct */
static struct el_s e0_, e1_, e2_, e3_;
static struct embc_list_s l0_, l1_;
static struct el_s * el_(uint8_t i) {
    switch (i) { case 0: return &e0_; case 1: return &e1_; case 2: return &e2_; default: return &e3_; }
}
static struct embc_list_s * lst_(int i) { return i ? &l1_ : &l0_; }
static uint8_t seq[2][NEL];     /* model */
static uint8_t len[2];

static void m_unlink(uint8_t e) {
    for (int l = 0; l < 2; ++l) {
        uint8_t w = 0;
        for (uint8_t i = 0; i < NEL; ++i) {
            if (i < len[l] && seq[l][i] != e) {
                seq[l][w++] = seq[l][i];
            }
        }
        len[l] = w;
    }
}

static void m_insert(int l, uint8_t pos, uint8_t e) {
    for (int i = NEL - 1; i > 0; --i) {
        if (i > pos) {
            seq[l][i] = seq[l][i - 1];
        }
    }
    seq[l][pos] = e;
    ++len[l];
}

static bool m_find(uint8_t e, int * l_out, uint8_t * pos) {
    for (int l = 0; l < 2; ++l) {
        for (uint8_t i = 0; i < NEL; ++i) {
            if (i < len[l] && seq[l][i] == e) {
                *l_out = l;
                *pos = i;
                return true;
            }
        }
    }
    return false;
}

static void agree(void) {
    for (int l = 0; l < 2; ++l) {
        struct embc_list_s * i;
        uint8_t k = 0;
        embc_list_foreach(lst_(l), i) {
            CHECK(k < len[l], "forward traversal visits no more items than were added");
            struct el_s * e = embc_list_entry(i, struct el_s, item);
            CHECK(e == el_(seq[l][k]), "forward traversal visits the items in list order");
            ++k;
        }
        CHECK(k == len[l], "forward traversal visits every item");
        embc_list_foreach_reverse(lst_(l), i) {
            CHECK(k > 0, "reverse traversal visits no more items than were added");
            --k;
            CHECK(i == &el_(seq[l][k])->item, "reverse traversal visits the items in reverse order");
        }
        CHECK(k == 0, "reverse traversal visits every item");
        CHECK(embc_list_is_empty(lst_(l)) == (len[l] == 0), "is_empty iff no item");
        CHECK(embc_list_length(lst_(l)) == len[l], "length counts the items");
        CHECK(embc_list_peek_head(lst_(l)) == (len[l] ? &el_(seq[l][0])->item : 0), "peek_head is the first item");
        CHECK(embc_list_peek_tail(lst_(l)) == (len[l] ? &el_(seq[l][len[l] - 1])->item : 0), "peek_tail is the last item");
    }
}

static void query(void) {
    int l = nd_bool() ? 1 : 0;
    uint8_t e = nd_below8(NEL);
    int64_t idx = nd_i64();
    int l2 = -1;
    uint8_t pos = 0;
    bool in = m_find(e, &l2, &pos) && (l2 == l);
    CHECK(embc_list_index_of(lst_(l), &el_(e)->item) == (in ? pos : -1), "index_of is the position, or -1 when absent");
    CHECK(embc_list_contains(lst_(l), &el_(e)->item) == in, "contains iff the item is in the list");
    struct embc_list_s * want = (idx >= 0 && idx < len[l]) ? &el_(seq[l][idx])->item : 0;
    CHECK(embc_list_index(lst_(l), (embc_size_t) idx) == want, "index returns the item at the position, or NULL");
}

static void setup(void) {
    for (int l = 0; l < 2; ++l) {
        embc_list_initialize(lst_(l));
        len[l] = 0;
    }
    for (int i = 0; i < NEL; ++i) {
        el_(i)->id = i;
        embc_list_initialize(&el_(i)->item);
    }
}

static void op_step(uint8_t op) {
    int l = nd_bool() ? 1 : 0;
    uint8_t e = nd_below8(NEL);
    uint8_t at = nd_below8(NEL);
    int la;
    uint8_t pa;
    struct embc_list_s * got;
    switch (op) {
        case 0:
            embc_list_add_head(lst_(l), &el_(e)->item);
            m_unlink(e);
            m_insert(l, 0, e);
            break;
        case 1:
            embc_list_add_tail(lst_(l), &el_(e)->item);
            m_unlink(e);
            m_insert(l, len[l], e);
            break;
        case 2:
            got = embc_list_remove_head(lst_(l));
            if (len[l]) {
                uint8_t w = seq[l][0];
                CHECK(got == &el_(w)->item, "remove_head returns the first item");
                m_unlink(w);
            } else {
                CHECK(got == 0, "remove_head of an empty list returns NULL");
            }
            break;
        case 3:
            got = embc_list_remove_tail(lst_(l));
            if (len[l]) {
                uint8_t w = seq[l][len[l] - 1];
                CHECK(got == &el_(w)->item, "remove_tail returns the last item");
                m_unlink(w);
            } else {
                CHECK(got == 0, "remove_tail of an empty list returns NULL");
            }
            break;
        case 4:
            embc_list_remove(&el_(e)->item);
            m_unlink(e);
            break;
        case 5:
        case 6:
            ASSUME(e != at);
            if (m_find(at, &la, &pa)) {
                if (op == 5) {
                    embc_list_insert_before(&el_(at)->item, &el_(e)->item);
                } else {
                    embc_list_insert_after(&el_(at)->item, &el_(e)->item);
                }
                m_unlink(e);
                m_find(at, &la, &pa);
                m_insert(la, op == 5 ? pa : pa + 1, e);
            }
            break;
        default:
            embc_list_append(lst_(l), lst_(1 - l));
            while (len[1 - l]) {
                uint8_t w = seq[1 - l][0];
                m_unlink(w);
                m_insert(l, len[l], w);
            }
            break;
    }
}

void h_list_ops(void) {
    setup();
    for (int k = 0; k < NOPS; ++k) {
        op_step(nd_below8(8));
    }
    agree();
    query();
    WITNESS();
}

/* Traversal that removes or re-inserts the visited item still visits every original item once. */
void h_list_foreach_modify(void) {
    setup();
    uint8_t n = nd_below8(NEL + 1);
    for (uint8_t i = 0; i < NEL; ++i) {
        if (i < n) {
            embc_list_add_tail(lst_(0), &el_(i)->item);
            m_insert(0, i, i);
        }
    }
    struct embc_list_s * i;
    uint8_t k = 0;
    bool rev = nd_bool();
    if (!rev) {
        embc_list_foreach(lst_(0), i) {
            CHECK(k < n, "traversal with removal visits each item once");
            CHECK(i == &el_(k)->item, "traversal with removal keeps the order");
            uint8_t act = nd_below8(3);
            if (act == 1) {
                embc_list_remove(i);
                m_unlink(k);
            } else if (act == 2) {
                embc_list_add_head(lst_(1), i);
                m_unlink(k);
                m_insert(1, 0, k);
            }
            ++k;
        }
    } else {
        embc_list_foreach_reverse(lst_(0), i) {
            CHECK(k < n, "reverse traversal with removal visits each item once");
            CHECK(i == &el_(n - 1 - k)->item, "reverse traversal with removal keeps the order");
            uint8_t act = nd_below8(3);
            if (act == 1) {
                embc_list_remove(i);
                m_unlink(n - 1 - k);
            } else if (act == 2) {
                embc_list_add_tail(lst_(1), i);
                m_unlink(n - 1 - k);
                m_insert(1, len[1], n - 1 - k);
            }
            ++k;
        }
    }
    CHECK(k == n, "traversal visits every item");
    agree();
    WITNESS();
}
