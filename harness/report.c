/* What the library says about itself: version, debug classes, the report at shutdown. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <sys/time.h>
#include <sys/resource.h>
static struct timeval now; static struct rusage ru[2];
int vp_gettimeofday(struct timeval *t, void *z) { (void)z; *t = now; return 0; }
int vp_getrusage(int w, struct rusage *r) { *r = ru[w != RUSAGE_SELF]; return 0; }
static const unsigned long cl[6] = { MAA_MEMORY, MAA_TIME, MAA_PR, MAA_SL, MAA_SRC, MAA_PARSE };
static const char *const nm[6] = { ".memory", ".time", ".pr", ".sl", ".src", ".parse" };
static int count(const char *h, const char *n) { int c = 0; while ((h = strstr(h, n))) c++, h++; return c; }
void harness(void)
{
    int mode = vp_param("mode", 0), i, j; long live0; char line[80]; const char *t; size_t n;
    vp_capture(&stderr); vp_capture(&stdout); live0 = vp_live();
    sprintf(line, "Libmaa %d.%d.%d", MAA_MAJOR, MAA_MINOR, MAA_TEENY);
    vp_assert(maa_version_major() == MAA_MAJOR && maa_version_minor() == MAA_MINOR && maa_version_teeny() == MAA_TEENY, "version numbers");
    vp_assert(!strcmp(maa_version(), line), "version text");
    if (mode == 0) {                         /* classes by name, any two in a row */
        int a, b, on[6] = { 0 };
        maa_init("p");
        vp_capture_reset(&stderr); dbg_list(stderr); t = vp_captured(&stderr, &n);
        for (i = 0; i < 6; i++) { sprintf(line, "  %s (builtin)\n", nm[i]); vp_assert(count(t, line) == 1, "every class is listed"); }
        for (j = 0; j < 3; j++) {
            char b[12]; int m = vp_choice(3, "minus"); a = vp_choice(6, "a");
            sprintf(b, "%s%s", m == 2 ? "-" : m == 1 ? "+" : "", nm[a]); dbg_set(b); on[a] = m != 2;
            for (i = 0; i < 6; i++) vp_assert((dbg_test(cl[i]) != 0) == on[i], "a class name switches that class");
        }
        (void)b;
        for (i = 0; i < 6; i++) dbg_unset_flag(cl[i]);
        vp_capture_reset(&stderr); maa_shutdown(); vp_captured(&stderr, &n); vp_assert(n == 0, "a quiet shutdown");
        vp_reach("classes");
    } else {                                 /* the report */
        int mem = vp_choice(2, "mem"), tim = vp_choice(2, "time"), other = vp_choice(3, "other"), words = vp_choice(3, "words"), mine = vp_choice(2, "mine"), s = vp_choice(3, "sec"), u = vp_choice(2, "usec"), lookups = 0; str_Stats st = NULL; char w[200];
        now.tv_sec = 50; now.tv_usec = 0;
        maa_init("p");
        if (mem) dbg_set(".memory"); if (tim) dbg_set(".time"); if (other) dbg_set(other == 1 ? ".sl" : ".parse");
        for (i = 0; i < words; i++) { str_find(i ? "two" : "one"); lookups++; }
        if (mine) tim_start("mine");
        now.tv_sec += s; now.tv_usec = u ? 250000 : 0; ru[0].ru_utime.tv_sec = s; ru[1].ru_stime.tv_sec = u;
        if (mine) tim_stop("mine");
        if (mem) st = str_get_stats();
        vp_capture_reset(&stderr); vp_capture_reset(&stdout);
        maa_shutdown();
        t = vp_captured(&stderr, &n); vp_assert(strlen(t) == n, "text");
        vp_assert(count(t, line) == (mem || tim), "the version heads a report"); if (mem || tim) vp_assert(!strncmp(t, line, strlen(line)) && t[strlen(line)] == '\n', "in a line of its own");
        vp_assert(count(t, "Statistics for global string pool at ") == mem, "memory statistics when asked for");
        if (mem) { sprintf(w, "\n   %d strings using %d bytes\n   %d retrievals (%d from top, %d failed)\n", st->count, st->bytes, st->retrievals, st->hits, st->misses); vp_assert(count(t, w) == 1, "the figures of the pool"); xfree(st); }
        sprintf(w, "%-20s %d.%s0r %d.000u %d.000s\n", "total", s, u ? "25" : "00", s, u); vp_assert(count(t, w) == tim && count(t, "total") == tim, "the time of the program when asked for");
        sprintf(w, "%-20s %d.%s0r %d.000u %d.000s\n", "mine", s, u ? "25" : "00", s, u); vp_assert(count(t, w) == (tim && mine) && count(t, "mine") == (tim && mine), "timers when asked for");
        vp_assert(count(t, "\n") == (mem || tim) + 3 * mem + tim * (1 + mine), "and nothing else");
        vp_captured(&stdout, &n); vp_assert(n == 0, "standard output is left alone");
        vp_reach("report");
    }
    vp_assert(vp_live() == live0, "shutdown releases everything");
}
