#include "vh.h"
#ifndef VH_CBMC
#include <stdio.h>
#include <unistd.h>
#endif

int vh_fatal_mode = 0;
int vh_fatal_count = 0;
int vh_live = 0;
int vh_alloc_count = 0;
int vh_free_count = 0;

#ifdef VH_CBMC

void embc_fatal(char const * file, int line, char const * msg) {
    (void) file; (void) line; (void) msg;
    if (vh_fatal_mode == 3) {
        ++vh_fatal_count;
        return;
    }
    __CPROVER_assert(vh_fatal_mode != 0, "PROP: embc_fatal raised where it is not permitted");
    __CPROVER_assume(0);
}

void * vh_alloc(embc_size_t sz) {
    __CPROVER_assert(sz >= 0, "PROP: negative allocation size");
    ++vh_live;
    ++vh_alloc_count;
    return malloc((size_t) sz);
}

#else

static FILE * in_;
static int fill_ = 0xA5;

uint64_t vh_next(void) {
    unsigned long long v = 0;
    if (!in_ || (1 != fscanf(in_, "%llx", &v))) {
        printf("REPLAY: input exhausted\n");
        exit(5);
    }
    return (uint64_t) v;
}

void vh_assume_failed(char const * what) {
    printf("REPLAY: assumption not met: %s\n", what);
    exit(4);
}

void vh_check_failed(char const * what, char const * file, int line) {
    printf("REPLAY: PROPERTY VIOLATED: %s (%s:%d)\n", what, file, line);
    fflush(stdout);
    _exit(77);
}

void vh_witness(void) {
    printf("REPLAY: WITNESS reached\n");
}

void embc_fatal(char const * file, int line, char const * msg) {
    if (vh_fatal_mode == 3) {
        ++vh_fatal_count;
        return;
    }
    if (vh_fatal_mode) {
        printf("REPLAY: fatal as permitted: %s (%s:%d)\n", msg, file, line);
        fflush(stdout);
        _exit(0);
    }
    vh_check_failed("embc_fatal raised where it is not permitted", file, line);
}

void * vh_alloc(embc_size_t sz) {
    if (sz < 0) {
        vh_check_failed("negative allocation size", __FILE__, __LINE__);
    }
    ++vh_live;
    ++vh_alloc_count;
    void * p = malloc((size_t) sz);
    memset(p, fill_, (size_t) sz);
    return p;
}

void HARNESS(void);

int main(int argc, char * argv[]) {
    if (argc > 1) {
        in_ = fopen(argv[1], "r");
    }
    if (argc > 2) {
        fill_ = atoi(argv[2]);
    }
    HARNESS();
    printf("REPLAY: end\n");
    return 0;
}

#endif

void vh_free(void * p) {
    --vh_live;
    ++vh_free_count;
    free(p);
}

void vh_init(void) {
    embc_allocator_set(vh_alloc, vh_free);
}
