/* Timers: elapsed time between start and stop, per name. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
#include <sys/time.h>
#include <sys/resource.h>
static struct timeval now; static struct rusage ru[2];
int vp_gettimeofday(struct timeval *t, void *z) { (void)z; *t = now; return 0; }
int vp_getrusage(int w, struct rusage *r) { *r = ru[w != RUSAGE_SELF]; return 0; }
static const int us[] = { 0, 1, 499999, 999999 };
static void pick(struct timeval *t, const char *n) { t->tv_sec = vp_choice(3, n); t->tv_usec = us[vp_choice(4, n)]; }
static double diff(struct timeval a, struct timeval b) { return ((double)(b.tv_sec - a.tv_sec) * 1000000.0 + (double)(b.tv_usec - a.tv_usec)) / 1000000.0; }
static int near(double a, double b) { double d = a - b; return (d < 0.0000005) & (d > -0.0000005); }
void harness(void)
{
    int mode = vp_param("mode", 0); struct timeval a, b, c; long live0; char n1[8] = "one", n2[8] = "two"; double r1;
    vp_capture(&stderr); vp_capture(&stdout); live0 = vp_live();
    if (mode == 0) {                          /* wall time, two timers */
        pick(&a, "t0"); pick(&b, "t1"); a.tv_sec += 1500000000; b.tv_sec += 1500000000; c = b; c.tv_sec += 7; c.tv_usec = 250000;
        now = a; tim_start(n1); now = b; tim_start(n2); tim_stop(n1); r1 = tim_get_real("one");
        vp_assert(near(r1, diff(a, b)), "wall time to the microsecond");
        now = c; tim_stop("two"); vp_assert(near(tim_get_real(n2), diff(b, c)), "wall time of the other"); vp_assert(tim_get_real(n1) == r1, "a stopped timer keeps its time");
        tim_reset("one"); vp_assert(tim_get_real(n1) == 0.0 && near(tim_get_real(n2), diff(b, c)), "reset clears that timer only");
        now = a; tim_start("two"); now = b; tim_stop("two"); vp_assert(near(tim_get_real(n2), diff(a, b)), "a timer can be started again");
        vp_reach("real");
    } else if (mode == 1) {                   /* processor time, own and of children */
        struct timeval s0, s1, c0, c1; int sys = vp_choice(2, "sys");
        pick(&s0, "s0"); pick(&s1, "s1"); pick(&c0, "c0"); pick(&c1, "c1");
        if (sys) { ru[0].ru_stime = s0; ru[1].ru_stime = c0; } else { ru[0].ru_utime = s0; ru[1].ru_utime = c0; }
        tim_start(n1);
        if (sys) { ru[0].ru_stime = s1; ru[1].ru_stime = c1; } else { ru[0].ru_utime = s1; ru[1].ru_utime = c1; }
        vp_assert(tim_get_user(n1) == 0.0 && tim_get_system(n1) == 0.0, "nothing before the stop");
        tim_stop(n1);
        vp_assert(near(sys ? tim_get_system(n1) : tim_get_user(n1), diff(s0, s1) + diff(c0, c1)), "own time plus time of children"); vp_assert((sys ? tim_get_user(n1) : tim_get_system(n1)) == 0.0, "the other kind of time is zero"); vp_assert(tim_get_real(n1) == 0.0, "no wall time passed");
        tim_reset(n1); vp_assert(tim_get_user(n1) == 0.0 && tim_get_system(n1) == 0.0 && tim_get_real(n1) == 0.0, "reset");
        vp_reach("cpu");
    } else if (mode == 5) {                   /* many timers, one of them used again and again */
        static char nn[60][6]; int k = vp_choice(60, "k"), i, lines = 0; const char *t; size_t m;
        for (i = 0; i < 60; i++) { now.tv_sec = 100 + i; sprintf(nn[i], "t%d", i); tim_start(nn[i]); }
        for (i = 0; i < 60; i++) { now.tv_sec = 200 + 2 * i; if (i != k) tim_stop(nn[i]); }
        for (i = 0; i < 60; i++) vp_assert(tim_get_real(nn[i]) == (i == k ? 0.0 : 100.0 + i), "each timer has its own time");
        for (i = 1; i < 40; i++) { now.tv_sec = 1000; tim_start(nn[k]); now.tv_sec += i; tim_stop(nn[k]); vp_assert(tim_get_real(nn[k]) == (double)i, "a timer can be started again"); if (i & 1) tim_reset(nn[k]); }
        for (i = 0; i < 60; i++) vp_assert(tim_get_real(nn[i]) == (i == k ? 0.0 : 100.0 + i), "each timer has its own time");
        vp_capture_reset(&stderr); tim_print_timers(stderr); for (t = vp_captured(&stderr, &m); *t; t++) lines += *t == '\n'; vp_assert(lines == 60, "each timer is reported once"); vp_reach("many");
    } else if (mode == 4) {                   /* long names that differ at the end, in the middle or in length */
        static char p[4300 + LX], q[4300 + LX], w[4400 + LX]; int l = a_length("len"), d = vp_choice(3, "differ"); size_t m; const char *t;
        a_text(p, l, 0); strcpy(q, p); if (d == 0) q[l - 1] ^= 1; else if (d == 1) q[l / 2] ^= 1; else strcat(q, "x");
        now.tv_sec = 5; tim_start(p); now.tv_sec = 7; tim_start(q); now.tv_sec = 8; tim_stop(p); now.tv_sec = 12; tim_stop(q);
        vp_assert(tim_get_real(p) == 3.0 && tim_get_real(q) == 5.0, "each timer has its own time");
        vp_capture_reset(&stderr); tim_print_timer(stderr, p); t = vp_captured(&stderr, &m); sprintf(w, "%-20s 3.000r 0.000u 0.000s\n", p); vp_assert(!strcmp(t, w), "one timer alone"); vp_reach("long");
    } else if (mode == 3) {                   /* any two instants: solver arithmetic on doubles */
        int s = (int)vp_range(0, 3, "sec"), u = (int)vp_range(0, vp_param("umax", 999999), "usec"); long back;
        now.tv_sec = 100; now.tv_usec = 0; tim_start(n1); now.tv_sec += s; now.tv_usec = u; tim_stop(n1);
        back = (long)(tim_get_real(n1) * 1000000.0 + 0.5);
        vp_assert(back == (long)s * 1000000 + u, "wall time to the microsecond"); vp_reach("any");
    } else if (mode == 6) {                   /* long times, any time of the world; a clock set back */
        static const long S[] = { 0, 1, 59, 3600, 2147, 2148, 4294, 4295, 86400, 40000000, 2147483647L, 2147483648L, 4294967296L, -1, -4000 }, B[] = { 5000, 1500000000L, 2147483647L, 4294967295L };
        int what = vp_choice(5, "what"), u0 = us[vp_choice(4, "u0")], u1 = us[vp_choice(4, "u1")]; long s0 = B[vp_choice(4, "start")], g = S[vp_choice(15, "gap")]; double want, r;
        struct timeval *v = what == 0 ? &now : what == 1 ? &ru[0].ru_utime : what == 2 ? &ru[1].ru_utime : what == 3 ? &ru[0].ru_stime : &ru[1].ru_stime;
        v->tv_sec = s0; v->tv_usec = u0; tim_start(n1); v->tv_sec = s0 + g; v->tv_usec = u1; tim_stop(n1);
        want = (double)g + (u1 - u0) / 1000000.0; r = what == 0 ? tim_get_real(n1) : what < 3 ? tim_get_user(n1) : tim_get_system(n1);
        vp_assert((r - want < 0.000002) & (want - r < 0.000002), "the time that passed"); vp_reach("far apart");
    } else {                                  /* the report */
        const char *t; size_t len; static const char *const w[] = { "0.000", "2.000", "1.250" }; int k = vp_choice(3, "k"), m = vp_choice(3, "m"); char l1[64], l2[64];
        now.tv_sec = 5; now.tv_usec = 0; tim_start(n1); tim_start(n2);
        if (k) { now.tv_sec += k == 1 ? 2 : 1; now.tv_usec = k == 1 ? 0 : 250000; } if (m) { ru[0].ru_utime.tv_sec = m == 1 ? 2 : 1; ru[0].ru_utime.tv_usec = m == 1 ? 0 : 250000; }
        tim_stop(n1); tim_stop(n2); vp_capture_reset(&stderr); tim_print_timers(stderr); t = vp_captured(&stderr, &len);
        sprintf(l1, "%-20s %sr %su 0.000s\n", "one", w[k], w[m]); sprintf(l2, "%-20s %sr %su 0.000s\n", "two", w[k], w[m]);
        vp_capture_reset(&stdout); tim_print_timer(stdout, "two"); { size_t q; const char *u = vp_captured(&stdout, &q); vp_assert(!strcmp(u, l2), "one timer alone"); }
        vp_assert(strstr(t, l1) && strstr(t, l2) && len == strlen(l1) + strlen(l2), "each timer is reported once"); vp_reach("report");
    }
    _tim_shutdown(); vp_capture(&stderr);
    if (mode != 2) vp_assert(vp_live() == live0, "everything is released");
    if (VP_CATCH) { tim_stop(n1); VP_END_CATCH; vp_fail("no timer after shutdown"); } vp_assert(vp_end_kind == 2, "an unknown timer is an internal error");
}
