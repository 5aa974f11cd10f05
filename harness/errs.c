/* Error reports: how the program ends and what stderr and the log get. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
#include <errno.h>
/* flushing may fail, and any call may change errno */
static int flushFails; static long outAt, errAt;    /* length of stderr's text when stdout was first, stderr last flushed */ extern int real_fflush(FILE *) __asm__("fflush");
int vp_fflush(FILE *f)
{
    int r; size_t n;
    if (f == stdout || !f) { vp_captured(&stderr, &n); if (outAt < 0) outAt = n; }
    if (f == stderr || !f) { vp_captured(&stderr, &n); errAt = n; }
    if (flushFails && f != stderr) { errno = ENOSPC; return -1; } r = real_fflush(f); return r; 
}
static char *sb; static size_t sl; static FILE *lf;
static int count(const char *h, const char *n) { int c = 0; while ((h = strstr(h, n))) c++, h++; return c; }
void harness(void)
{
    int mode = vp_param("mode", 0);
    vp_capture(&stderr);
    if (mode == 0) {
        static const char *const names[] = { NULL, "prog", "/usr/b-n/prog", "x/" }, *const base[] = { NULL, "prog", "prog", "" }; int p = vp_choice(4, "prog"), r = vp_choice(2, "routine"), k = vp_choice(4, "kind"), e = vp_choice(3, "errno"), lg = vp_choice(2, "log"), i;
        static const int en[] = { ENOENT, EINTR, EAGAIN }; const char *rt = r ? "fn" : NULL, *t; size_t n; char pre[64], num[16]; volatile int ended = 0; int v = (int)vp_range(0, 3, "v"); v = (int)vp_conc(v);
        err_set_program_name(names[p]); if (base[p]) vp_assert(err_program_name() && !strcmp(err_program_name(), base[p]), "program name"); else vp_assert(!err_program_name(), "no program name");
        if (lg) { log_option(LOG_OPTION_NO_FULL); lf = open_memstream(&sb, &sl); fflush(lf); log_stream("id", lf); }
        sprintf(num, "msg %d %s", v, "zz");
        if (VP_CATCH) {
            flushFails = vp_choice(2, "flush"); outAt = errAt = -1; errno = en[e];
            if (k == 0) err_fatal(rt, "msg %d %s", v, "zz"); else if (k == 1) err_fatal_errno(rt, "msg %d %s", v, "zz"); else if (k == 2) err_warning(rt, "msg %d %s", v, "zz"); else err_internal(rt, "msg %d %s", v, "zz");
            VP_END_CATCH;
        } else ended = vp_end_kind;
        flushFails = 0;
        vp_assert(ended == (k == 2 ? 0 : k == 3 ? 2 : 1), "fatal errors exit, warnings return, internal errors abort"); if (ended == 1) vp_assert(vp_end_code == 1, "exit status");
        t = vp_captured(&stderr, &n);
        vp_assert(outAt == 0, "standard output is flushed before the report"); if (k == 3) vp_assert(errAt == (long)n, "the report is flushed before the abort"); vp_assert(!strstr(t, "(null)"), "no absent name is printed");
        pre[0] = 0;
        if (base[p]) { strcat(pre, base[p]); if (r) strcat(pre, " (fn)"); strcat(pre, ": "); } else if (r) strcat(pre, "fn: ");
        i = strlen(pre);
        vp_assert((int)n > i && !strncmp(t, pre, i), "the report names the program and the routine");
        vp_assert(count(t, num) == 1, "the message appears once"); vp_assert(t[n - 1] == '\n', "the report ends its line");
        if (k == 1) vp_assert(count(t, strerror(en[e])) == 1, "the system error is told");
        if (k == 0 || k == 2) vp_assert((int)n == i + (int)strlen(num) + 1 && !strncmp(t + i, num, strlen(num)), "text of the report");
        if (k == 3) vp_assert(count(t, "Internal error") == 1, "an internal error is called so");
        if (k == 3) { char ab[64]; const char *q = strstr(t, num); sprintf(ab, "\nAborting%s%s...\n", base[p] ? " " : "", base[p] ? base[p] : ""); vp_assert(q && !strcmp(q + strlen(num), ab), "the message, then the line about the abort"); }
        if (lg) { fflush(lf); vp_assert(!strstr(sb, "(null)"), "no absent name is logged"); vp_assert(count(sb, num) == 1, "the message is logged once"); if (k == 1) vp_assert(count(sb, strerror(en[e])) == 1, "the system error is logged"); if (r) vp_assert(!strncmp(sb, "(fn) ", 5), "the routine is logged"); vp_assert(sb[sl - 1] == '\n', "the log line ends"); vp_assert(count(sb, "\n") == (k == 1 ? 2 : 1), "one line per message"); }
        if (k == 0) vp_reach("fatal"); else if (k == 1) vp_reach("errno"); else if (k == 2) vp_reach("warning"); else vp_reach("internal");
    } else if (mode == 2) {                  /* long names and messages are reported in full */
        static char pn[4300 + LX], rt[4300 + LX], ms[4300 + LX], w[13000 + 3 * LX]; int l = a_length("len"), which = vp_choice(3, "which"), k = vp_choice(4, "kind"), dir = vp_choice(2, "dir"); const char *t; size_t n; volatile int ended = 0; char *q = pn;
        if (dir) { *q++ = '/'; a_text(q, l, 5); q += l; *q++ = '/'; a_text(q, 3, 0); q[3] = 0; if (which == 0) which = 2; } else a_text(pn, which == 0 ? l : 3, 0);
        a_text(rt, which == 1 ? l : 2, 1); a_text(ms, which == 2 && !dir ? l : 4, 2); ms[0] = 'M';
        err_set_program_name(pn);
        if (VP_CATCH) {
            errno = ENOENT;
            if (k == 0) err_fatal(rt, "%s", ms); else if (k == 1) err_fatal_errno(rt, "%s", ms); else if (k == 2) err_warning(rt, "%s", ms); else err_internal(rt, "%s", ms);
            VP_END_CATCH;
        } else ended = vp_end_kind;
        vp_assert(ended == (k == 2 ? 0 : k == 3 ? 2 : 1), "fatal errors exit, warnings return, internal errors abort");
        strcpy(w, dir ? q : pn); strcat(w, " ("); strcat(w, rt); strcat(w, "): "); if (k != 3) strcat(w, ms);
        t = vp_captured(&stderr, &n); vp_assert(n > strlen(w) && !strncmp(t, w, strlen(w)), "names and messages of any length are told in full"); vp_assert(count(t, ms) == 1, "the message appears once"); vp_reach("long");
    } else {                                 /* program names */
        int n = vp_choice(vp_param("len", 5) + 1, "len"), i, last = -1; char b[16];
        vp_bytes(b, n, "c"); for (i = 0; i < n; i++) { vp_assume(b[i] != 0); if (b[i] == '/') last = i; }
        b[n] = 0;
        err_set_program_name(b); vp_assert(err_program_name() && !strcmp(err_program_name(), b + last + 1), "the name after the last slash");
        err_set_program_name(NULL); vp_assert(!err_program_name(), "no name"); vp_reach("name");
    }
}
