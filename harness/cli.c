/* Console: line editing and argument splitting. */
#include "vh.h"
#include "embc/cli.h"

#ifdef VH_CBMC
/* byte loops instead of CBMC's array operations, which forget known bytes */
void * memcpy(void * d, void const * s, size_t n) {
    for (size_t i = 0; i < n; ++i) {
        ((char *) d)[i] = ((char const *) s)[i];
    }
    return d;
}
#endif

#ifndef NTYPE
#define NTYPE 4
#endif
#ifndef PREFIX
#define PREFIX 0
#endif
#define NTEXT (PREFIX + NTYPE + 1)
#define LIMIT 64

static embc_cli_t cli;

/* what the handler got */
static int lines;
static char got[LIMIT + 2];
static int got_len;
static int my_cookie;
static int answer;

static int on_line(void * cookie, char const * line) {
    CHECK(cookie == &my_cookie, "the handler gets its cookie");
    ++lines;
    got_len = 0;
    while (got_len < (LIMIT + 1 < NTEXT ? LIMIT + 1 : NTEXT) && line[got_len]) {
        got[got_len] = line[got_len];
        ++got_len;
    }
    CHECK(got_len < LIMIT, "a line shorter than the limit is delivered");
    return answer;
}

/* reference: all characters typed since the line end */
static char text[NTEXT];
static int text_n;

static bool is_comment(char c) { return c == '#' || c == '@' || c == '%'; }
static bool is_white(char c) { return c == ' ' || c == '\t'; }

/* what has to be delivered: collapsed text up to the comment; -1: rejected */
static char want[NTEXT];
static int reference(void) {
    int n = 0;
    bool pending = false;
    bool done = false;
    for (int i = 0; i < NTEXT; ++i) {
        if (!done && i < text_n) {
            if (i >= LIMIT) {
                return -1;
            }
            if (is_comment(text[i])) {
                done = true;
            } else if (is_white(text[i])) {
                pending = n > 0;
            } else {
                if (pending) {
                    want[n++] = ' ';
                    pending = false;
                }
                want[n++] = text[i];
            }
        }
    }
    return n >= LIMIT ? -1 : n;
}

static char last;

static void line_end(void) {
    int before = lines;
    int n = reference();
    embc_cli_insert_char(&cli, last);
    if (n <= 0) {
        CHECK(lines == before, "an empty or overlong line is not executed");
    } else {
        CHECK(lines == before + 1, "the line is executed once");
        CHECK(got_len == n, "the line has exactly the edited characters");
        for (int i = 0; i < NTEXT; ++i) {
            CHECK(i >= n || got[i] == want[i], "the line has exactly the edited characters");
        }
    }
    text_n = 0;
}

static bool was_cr;

static void type_char(char c) {
    if (c == 8 || c == 127) {
        if (text_n > 0) {
            --text_n;
        }
    } else {
        text[text_n++] = c;
    }
    was_cr = false;
    embc_cli_insert_char(&cli, c);
}

static void newline(char c) {
    if (c == 10 && was_cr) {
        int before = lines;
        embc_cli_insert_char(&cli, c);
        CHECK(lines == before, "CR LF is one line end");
        was_cr = false;
    } else {
        last = c;
        was_cr = c == 13;
        line_end();
    }
}

static void printer(void * cookie, char const * s) {
    CHECK(cookie == &answer, "the printer gets its cookie");
    CHECK(s != 0, "text is printed");
    (void) s;
}

static void setup(void) {
    cli.echo_mode = EMBC_CLI_ECHO_OFF;
#ifdef ECHO
    cli.echo_mode = nd_below8(3);
    cli.echo_user_char = '*';
    cli.verbose = nd_below8(2);
    answer = (int) nd_below8(4) - 1;
#endif
    cli.response_success = "ok\n";
    cli.response_error = "error\n";
    cli.prompt[0] = '>';
    cli.execute_line = on_line;
    cli.execute_cookie = &my_cookie;
    cli.print = printer;
    cli.print_cookie = &answer;
    embc_cli_initialize(&cli);
}

/* Any NTYPE characters (line ends, backspaces, anything but NUL) after PREFIX plain ones;
 * each branch goes on by itself, so that the cursor stays known. */
static void type_step(int k);

static void type_any(int k) {
    uint8_t kind = nd_below8(5);
    if (kind == 0) {
        char c = (char) nd_u8();
        ASSUME(c != 0 && c != 8 && c != 127 && c != 10 && c != 13);
        type_char(c);
        type_step(k + 1);
    } else if (kind == 1) {
        type_char(8);
        type_step(k + 1);
    } else if (kind == 2) {
        type_char(127);
        type_step(k + 1);
    } else if (kind == 3) {
        newline(13);
        type_step(k + 1);
    } else {
        newline(10);
        type_step(k + 1);
    }
}

static void type_step(int k) {
    if (k == NTYPE) {
        newline(13);
        WITNESS();
        return;
    }
    type_any(k);
}

void h_cli_edit(void) {
    setup();
    for (int i = 0; i < PREFIX; ++i) {
#ifdef PREFIX_WHITE
        type_char(i % PREFIX_WHITE ? 'a' : ' ');
#else
        type_char('a');
#endif
    }
    type_step(0);
}

#ifndef ODD
#define ODD 0
#define ERASE 0
#endif

/* Around the limit: PREFIX characters with any one of them, erased again, and a short line after it. */
void h_cli_long(void) {
    setup();
    char c = (char) nd_u8();
    ASSUME(c != 0 && c != 8 && c != 127 && c != 10 && c != 13);
    for (int i = 0; i < PREFIX; ++i) {
        type_char(i == ODD ? c : 'a');
    }
    for (int i = 0; i < ERASE; ++i) {
        type_char(8);
    }
    newline(nd_bool() ? 13 : 10);
    was_cr = false;
    type_char('x');
    newline(13);
    CHECK(got_len == 1 && got[0] == 'x', "editing continues after any line");
    WITNESS();
}

/* ---- argument splitting ---- */
#ifndef ALEN
#define ALEN 6
#endif
static int calls, got_argc;
static int on_args(void * cookie, int argc, char * argv[]);
static char * args_text;
static int astart[20], alen_[20], acount;

static int on_args(void * cookie, int argc, char * argv[]) {
    CHECK(cookie == &my_cookie, "the handler gets its cookie");
    ++calls;
    got_argc = argc;
    CHECK(argc == acount, "every argument is passed");
    for (int i = 0; i < acount; ++i) {
        for (int j = 0; j < ALEN; ++j) {
            if (j < alen_[i]) {
                CHECK(argv[i][j] == args_text[astart[i] + j], "arguments are unchanged and in order");
            }
        }
        CHECK(argv[i][alen_[i]] == 0, "arguments are unchanged and in order");
    }
    return 42;
}

static bool is_sep(char c) { return c == ' ' || c == '\t' || c == ','; }

/* separators at branch-chosen places, so that the split is known */
static void args_run(int n) {
    args_text[n] = 0;
    acount = 0;
    for (int i = 0; i < n; ++i) {
        if (!is_sep(args_text[i])) {
            if (i == 0 || is_sep(args_text[i - 1])) {
                astart[acount] = i;
                alen_[acount] = 0;
                ++acount;
            }
            ++alen_[acount - 1];
        }
    }
    calls = 0;
    int rc = embc_cli_line_parser(&cli, args_text);
    if (acount == 0) {
        CHECK(rc == EMBC_CLI_SUCCESS && calls == 0, "a blank line runs nothing");
    } else {
        CHECK(rc == 42 && calls == 1, "the handler runs once and its result is returned");
    }
    WITNESS();
}

static void args_next(int i) {
    if (i == ALEN) {
        args_run(i);
        return;
    }
    uint8_t k = nd_below8(5);
    if (k == 0) {
        args_text[i] = ' ';
        args_next(i + 1);
    } else if (k == 1) {
        args_text[i] = '\t';
        args_next(i + 1);
    } else if (k == 2) {
        args_text[i] = ',';
        args_next(i + 1);
    } else if (k == 3) {
        args_text[i] = (char) ('a' + i);
        args_next(i + 1);
    } else {
        args_run(i);
    }
}

void h_cli_args(void) {
    static char t[ALEN + 1];            /* exactly as long as the text can be */
    args_text = t;
    cli.execute_args = on_args;
    cli.execute_cookie = &my_cookie;
    embc_cli_initialize(&cli);
    args_next(0);
}

/* any characters, one argument per run of non separators: the text is exactly as long as its buffer */
void h_cli_args_any(void) {
    static char t[ALEN + 1];
    for (int i = 0; i < ALEN; ++i) {
        t[i] = (char) nd_u8();
        ASSUME(t[i] != 0);
    }
    args_text = t;
    cli.execute_args = on_args;
    cli.execute_cookie = &my_cookie;
    embc_cli_initialize(&cli);
    acount = 0;
    for (int i = 0; i < ALEN; ++i) {
        if (!is_sep(t[i])) {
            if (i == 0 || is_sep(t[i - 1])) {
                astart[acount] = i;
                alen_[acount] = 0;
                ++acount;
            }
            ++alen_[acount - 1];
        }
    }
    int rc = embc_cli_line_parser(&cli, t);
    CHECK(acount ? (rc == 42 && calls == 1) : (rc == EMBC_CLI_SUCCESS && calls == 0), "the handler runs once and its result is returned");
    WITNESS();
}

static int on_many(void * cookie, int argc, char * argv[]) {
    CHECK(cookie == &my_cookie, "the handler gets its cookie");
    ++calls;
    got_argc = argc;
    for (int i = 0; i < EMBC_CLI_MAX_ARGS; ++i) {
        if (i < argc) {
            CHECK(argv[i][0] == 'a' + i && argv[i][1] == 0, "arguments are unchanged and in order");
        }
    }
    return 0;
}

static void many(int n, char end) {
    char t[2 * (EMBC_CLI_MAX_ARGS + 3)];
    int at = 0;
    for (int i = 0; i < n; ++i) {
        t[at++] = (char) ('a' + i);
        t[at++] = i + 1 < n ? ' ' : end;
    }
    t[at] = 0;
    int rc = embc_cli_line_parser(&cli, t);
    if (n <= EMBC_CLI_MAX_ARGS) {
        CHECK(rc == 0 && calls == 1 && got_argc == n, "up to the permitted number of arguments is passed");
    } else {
        CHECK(rc == EMBC_CLI_ERROR_PARAMETER_VALUE && calls == 0, "too many arguments are an error");
    }
    WITNESS();
}

void h_cli_args_many(void) {
    cli.execute_args = on_many;
    cli.execute_cookie = &my_cookie;
    embc_cli_initialize(&cli);
    uint8_t n = nd_below8(EMBC_CLI_MAX_ARGS + 3);
    for (int i = 0; i < EMBC_CLI_MAX_ARGS + 3; ++i) {
        if (n == i && i > 0) {
            if (nd_bool()) {
                many(i, ',');
            } else {
                many(i, 0);
            }
            return;
        }
    }
}

static int on_long(void * cookie, int argc, char * argv[]) {
    (void) cookie;
    ++calls;
    got_len = (int) strlen(argv[0]);
    CHECK(argc == 1, "one argument");
    return 0;
}

static void one_long(int n) {
    static char t[130];
    for (int i = 0; i < n; ++i) {
        t[i] = 'a';
    }
    t[n] = 0;
    int rc = embc_cli_line_parser(&cli, t);
    if (n <= EMBC_CLI_LINE_LENGTH) {
        CHECK(rc == 0 && calls == 1 && got_len == n, "a text up to the line length is split");
    } else {
        CHECK(rc ? calls == 0 : (calls == 1 && got_len == n), "an overlong text is not cut silently");
    }
    WITNESS();
}

void h_cli_args_long(void) {
    cli.execute_args = on_long;
    cli.execute_cookie = &my_cookie;
    embc_cli_initialize(&cli);
    uint8_t n = nd_below8(5);
    if (n == 0) { one_long(63); }
    else if (n == 1) { one_long(64); }
    else if (n == 2) { one_long(65); }
    else if (n == 3) { one_long(66); }
    else { one_long(120); }
}

/* a typed line reaches the argument handler */
void h_cli_args_typed(void) {
    static char const typed[] = "  cmd\ta  b,c # x";
    cli.execute_args = on_args;
    cli.execute_cookie = &my_cookie;
    embc_cli_initialize(&cli);
    args_text = "cmd a b,c";
    acount = 4;
    astart[0] = 0; alen_[0] = 3; astart[1] = 4; alen_[1] = 1; astart[2] = 6; alen_[2] = 1; astart[3] = 8; alen_[3] = 1;
    for (int i = 0; typed[i]; ++i) {
        embc_cli_insert_char(&cli, typed[i]);
    }
    bool cr = nd_bool();
    embc_cli_insert_char(&cli, cr ? 13 : 10);
    CHECK(calls == 1, "the argument handler runs at the line end");
    WITNESS();
}
