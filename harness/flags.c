/* Named run-time flags (dbg_* and flg_*): registration rules and what set/unset/test do. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
static int D;                                             /* 1 dbg_*, 0 flg_* */
static void reg(unsigned long f, const char *n) { if (D) { if ((f & 0xc0000000) == 0xc0000000) _dbg_register(f, n); else dbg_register(f, n); } else flg_register(f, n); }
static void areg(unsigned long f, const char *n) { if (D) dbg_register(f, n); else flg_register(f, n); }
static void set(const char *n) { if (D) dbg_set(n); else flg_set(n); }
static int test(unsigned long f) { return D ? dbg_test(f) : flg_test(f); }
static void destroy(void) { if (D) dbg_destroy(); else flg_destroy(); }
static void list(FILE *f) { if (D) dbg_list(f); else flg_list(f); }
static int legal(unsigned long f) { unsigned long l = f & 0x3fffffff; return (l != 0) & ((l & (l - 1)) == 0) & (!D | ((f & 0xc0000000) != 0xc0000000)); }
extern void _dbg_register(unsigned long, const char *);
#define N 5
static unsigned long fl[N]; static int on[N]; static const char *nm[N] = { "alpha", "b", "gamma", "gam", "delta" };
static char pm[8][12];
void harness(void)
{
    int mode = vp_param("mode", 0), i, j; long live0; volatile int st = 0;
    D = vp_param("dbg", 1);
    vp_capture(&stderr);
    live0 = vp_live();
    if (mode == 0) {                          /* which registrations are accepted */
        unsigned long f = vp_sym(32, "f"), g = vp_sym(32, "g"); volatile int kind;
        vp_assume(legal(f));
        if (!vp_param("any", 0)) { unsigned long l = f & 0x3fffffff; vp_assume((l == 1) | (l == 0x2000) | (l == 0x20000000)); }
        if (VP_CATCH) { areg(f, "first"); VP_END_CATCH; } else vp_fail("a flag with one low-order bit is accepted");
        vp_assert(!test(f), "a registered flag is not set yet");
        if (VP_CATCH) { areg(g, "second"); VP_END_CATCH; st = 1; }
        kind = vp_end_kind;
        vp_assert((st != 0) == (legal(g) & (f != g)), "accepted exactly when well-formed and not registered before");
        if (st) {
            if (VP_CATCH) { set("second"); VP_END_CATCH; } else vp_fail("a registered name can be set");
            vp_assert(test(g), "the flag that was set"); vp_assert(!test(f), "the other flag stays clear"); vp_reach("accepted");
            if (!D) { vp_assert(!strcmp(flg_name(g), "second") && !strcmp(flg_name(f), "first"), "flag names"); }
        } else { vp_assert(kind == 1 && vp_end_code == 1, "refusal ends the program with status 1"); vp_reach("refused"); }
        if (st) { destroy(); vp_assert(vp_live() == live0, "everything is released"); }
    } else if (mode == 1) {                   /* set and test without names, any two flags */
        unsigned long f = vp_sym(32, "f"), g = vp_sym(32, "g"), h = vp_sym(32, "h");
        vp_assume(legal(f)); vp_assume(legal(g)); vp_assume(legal(h)); vp_assume(f != h);
        vp_assert(!test(g), "clear at the start");
        dbg_set_flag(f); vp_assert((test(g) != 0) == (f == g), "set sets that flag only");
        dbg_set_flag(h); vp_assert((test(g) != 0) == ((f == g) | (h == g)), "set sets that flag only");
        dbg_unset_flag(f); vp_assert((test(g) != 0) == (h == g), "unset clears that flag only");
        dbg_unset_flag(f); vp_assert((test(g) != 0) == (h == g), "unset clears that flag only");
        vp_reach("end");
    } else if (mode == 4) {                   /* every flag there is, all registered */
        static char nn[120][6]; static int o[120]; int T = D ? 90 : 120, k, r; char b[8]; size_t len; const char *t, *q; int lines = 0;
        for (i = 0; i < T; i++) { sprintf(nn[i], "f%d", i * 7 % T); areg((unsigned long)(i / 30) << 30 | 1UL << i % 30, nn[i]); }
        if (D) _dbg_register(0xc0000001, "zz");
        r = vp_choice(2, "all"); if (r) { set("all"); for (i = 0; i < T; i++) o[i] = 1; }
        for (j = 0; j < 3; j++) {
            k = j == 0 ? vp_choice(T, "flag") : (k * 31 + j * 47) % T; b[0] = r ? '-' : '+'; strcpy(b + 1, nn[k]); set(b); o[k] = !r;
            for (i = 0; i < T; i++) vp_assert((test((unsigned long)(i / 30) << 30 | 1UL << i % 30) != 0) == o[i], "each flag is as set last");
        }
        vp_capture_reset(&stderr); list(stderr); t = vp_captured(&stderr, &len); for (q = t; *q; q++) lines += *q == '\n'; vp_assert(lines == T + D, "the list shows every name once");
        destroy(); for (i = 0; i < T; i++) vp_assert(!test((unsigned long)(i / 30) << 30 | 1UL << i % 30), "nothing is set after destroy"); vp_assert(vp_live() == live0, "everything is released"); vp_reach("every");
    } else if (mode == 3) {                   /* long names that differ at the end, in the middle or in length */
        static char a[4300 + LX], b[4300 + LX], c[4310 + LX]; int l = a_length("len"), d = vp_choice(3, "differ"), w; size_t n; const char *t;
        a_text(a, l, 0); a_text(b, l, 0); if (d == 0) b[l - 1] ^= 1; else if (d == 1) b[l / 2] ^= 1; else strcat(b, "x");
        areg(1, a); areg(0x40000001, b); w = vp_choice(2, "which");
        c[0] = '+'; strcpy(c + 1, w ? b : a); set(c); vp_assert((test(1) != 0) == !w && (test(0x40000001) != 0) == w, "exactly the flag named is set");
        c[0] = '-'; set(c); vp_assert(!test(1) && !test(0x40000001), "and cleared");
        set(w ? b : a); vp_assert((test(1) != 0) == !w && (test(0x40000001) != 0) == w, "exactly the flag named is set");
        if (!D) vp_assert(!strcmp(flg_name(1), a) && !strcmp(flg_name(0x40000001), b), "flag names");
        vp_capture_reset(&stderr); list(stderr); t = vp_captured(&stderr, &n); { c[0] = ' '; c[1] = ' '; strcpy(c + 2, a); strcat(c, "\n"); vp_assert(strstr(t, c) != NULL, "the list shows the name"); strcpy(c + 2, b); strcat(c, "\n"); vp_assert(strstr(t, c) != NULL, "the list shows the name"); }
        destroy(); vp_assert(vp_live() == live0, "everything is released"); vp_reach("long");
    } else {                                  /* sequences of settings by name */
        int ops = vp_param("ops", 3), cfg = vp_choice(3, "cfg");
        static const unsigned long cf[3][N] = { { 1, 0x40000001, 0x80000001, 0x20000000, 0xc0000001 }, { 0x20000000, 0x60000000, 0xa0000000, 0x80000001, 0xe0000000 }, { 4, 2, 0x40000002, 0x80000004, 0xc0000004 } };
        static const unsigned long cu[3][N] = { { 0xc0000001, 0x40000001, 0x80000001, 1, 2 }, { 0xe0000000, 0x60000000, 0xa0000000, 0x20000000, 0xd0000000 }, { 0xc0000004, 0xc0000002, 0x40000002, 0xc0000001, 0x80000002 } };
        int late = vp_param("late", 0) ? vp_choice(N, "late") : N, when = late < N ? vp_choice(ops, "when") : 0;
        for (i = 0; i < N; i++) { fl[i] = D ? cf[cfg][i] : cu[cfg][i]; if (i != late) reg(fl[i], nm[i]); }
        if (late == N) { int k = vp_choice(N + 1, "again");
          if (k < N) {
              if (VP_CATCH) { reg(fl[k], "again"); VP_END_CATCH; vp_fail("a flag registered before is refused"); }
              vp_assert(vp_end_kind == 1 && vp_end_code == 1, "refusal ends the program with status 1"); vp_capture_reset(&stderr); } }
        for (i = 0; i < ops; i++) {
            int op = vp_choice(D ? 8 : 6, "op"), k = op >= 1 && op <= 3 ? vp_choice(N, "k") : op >= 6 ? vp_choice(2, "k") : 0; char *b = pm[i];
            if (late < N && i <= when && op >= 1 && op <= 3 && k == late) {   /* a name registered only later */
                b[0] = "+-"[op == 3]; strcpy(b + (op > 1), nm[k]); if (op == 1) strcpy(b, nm[k]);
                if (VP_CATCH) { set(b); VP_END_CATCH; vp_fail("an unknown name is refused"); }
                vp_assert(vp_end_kind == 1 && vp_end_code == 1, "refusal ends the program with status 1"); op = 9;
            }
            switch (op) {
            case 0: set("none"); for (j = 0; j < N; j++) on[j] = 0; break;
            case 1: set(nm[k]); on[k] = 1; break;
            case 2: b[0] = '+'; strcpy(b + 1, nm[k]); set(b); on[k] = 1; break;
            case 3: b[0] = '-'; strcpy(b + 1, nm[k]); set(b); on[k] = 0; break;
            case 4: set("all"); for (j = 0; j < N; j++) on[j] = 1; break;
            case 5: { static const char *const bad[] = { "alph", "xalpha", "+", "-zz", "", "Alpha", "=b" };
                      if (VP_CATCH) { set(bad[vp_choice(7, "bad")]); VP_END_CATCH; vp_fail("an unknown name is refused"); }
                      vp_assert(vp_end_kind == 1 && vp_end_code == 1, "refusal ends the program with status 1"); break; }
            case 6: dbg_set_flag(fl[k]); on[k] = 1; break;
            case 7: dbg_unset_flag(fl[k]); on[k] = 0; break;
            }
            if (late < N && i == when) { reg(fl[late], nm[late]); vp_reach("late"); }
            for (j = 0; j < N; j++) vp_assert((test(fl[j]) != 0) == on[j], "each flag is as set last");
        }
        vp_capture_reset(&stderr); list(stderr);
        { size_t len; const char *t = vp_captured(&stderr, &len); char line[40]; for (j = 0; j < N; j++) { const char *p, *q; sprintf(line, D && j == N - 1 ? "  %s (builtin)\n" : "  %s\n", nm[j]); p = strstr(t, line); vp_assert(p != NULL, "the list shows every name"); q = strstr(p + 1, line); vp_assert(q == NULL, "once"); } }
        destroy();
        for (j = 0; j < N; j++) vp_assert(!test(fl[j]), "nothing is set after destroy");
        for (i = 0; i < N; i++) { if (VP_CATCH) { reg(fl[i], nm[N - 1 - i]); VP_END_CATCH; } else vp_fail("flags can be registered again"); }
        destroy();
        vp_reach("end");
    }
}
