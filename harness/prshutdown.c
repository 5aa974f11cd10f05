/* Shutdown of the process module: every child still owned is ended and reaped once. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include "procmodel.h"
#ifndef MAXC
#define MAXC 3
#endif
static struct { int alive, reaped, killed, byUser; } ch[MAXC + 1]; static int nch, shutting, exits;
static int many, one;
static int idx(pid_t p) { vp_assert(p > 1000 && p <= 1000 + nch, "only own children"); return p - 1001; }
pid_t vp_waitpid(pid_t p, int *st, int opt)
{
    int c = idx(p);
    if (ch[c].reaped) { errno = ECHILD; return -1; }
    if (ch[c].alive && shutting && (many ? c == one && vp_choice(2, "dies") : vp_choice(2, "dies"))) ch[c].alive = 0;       /* it may end by itself at any time */
    if (ch[c].alive && !shutting) ch[c].alive = 0;                              /* the user waits for it to end */
    if (ch[c].alive && (opt & WUNTRACED) && vp_choice(2, "stopped")) { if (st) *st = SIGSTOP << 8 | 0x7f; return p; }
    if (ch[c].alive && (opt & WNOHANG)) return 0;
    if (ch[c].alive) vp_fail("waiting for a child that was not ended blocks for ever");
    ch[c].reaped = 1; if (st) *st = ch[c].killed ? SIGKILL : 0; return p;
}
int vp_kill(pid_t p, int s)
{
    int c = idx(p);
    vp_assert(!ch[c].reaped, "a process already reaped is never signalled (its id may be someone else's)"); vp_assert(shutting, "signals only at shutdown");
    if (s == 0) return 0;
    vp_assert(s == SIGKILL || s == SIGTERM, "an ending signal"); vp_assert(!ch[c].killed, "once");
    ch[c].killed = 1; if (s == SIGKILL) ch[c].alive = 0;
    return 0;
}
void harness(void)
{
    int n = (many = vp_param("many", 0)) ? many : vp_choice(vp_param("children", 2) + 1, "n"), round, i, rounds = vp_param("rounds", 1); static int fd[MAXC][3]; static int how[MAXC]; long live0;
    if (many) one = vp_choice(many, "one");
    model_init(); vp_capture(&stderr);
    if (vp_param("low", 1)) { static const int ms[] = { 0, 1, 7, 6 }; int m = ms[vp_choice(4, "low")]; for (i = 0; i < 3; i++) if (m >> i & 1) T[i] = 0; }
    for (i = 3; i < 9; i++) put(i, ID_USER + i, 0);
    live0 = vp_live(); trace();
    for (round = 0; round < rounds; round++) {
        memset(ch, 0, sizeof ch); nch = 0; nforks = 0; shutting = 0;
        for (i = 0; i < n; i++) {
            how[i] = many ? i % 4 : vp_choice(4, "how"); nch++; ch[i].alive = 1;
            if (vp_param("raise", 0)) { int k; limit = i || round ? NFD : 16; if (i) for (k = 3; k < 18; k++) if (!T[k]) put(k, ID_USER + k, 0); }
            pr_open("cmd", how[i] == 0 ? PR_CREATE_STDIN : how[i] == 1 ? PR_CREATE_STDOUT : how[i] == 2 ? PR_CREATE_STDIN | PR_CREATE_STDOUT : PR_CREATE_STDIN | PR_CREATE_STDOUT | PR_CREATE_STDERR, &fd[i][0], &fd[i][1], &fd[i][2]);
        }
        for (i = 0; i < n; i++) {
            int f = how[i] == 1 ? fd[i][1] : fd[i][0];
            switch (many && i != one ? 0 : vp_choice(4, "fate")) {
            case 0: break;
            case 1: vp_assert(pr_close(f) == 0, "status"); ch[i].byUser = 1; break;
            case 2: vp_assert(pr_close_nowait(f) == 1001 + i, "process"); if (how[i] < 2) ch[i].byUser = 2; break;
            case 3: pr_wait(1001 + i); ch[i].byUser = 1; break;
            }
        }
        shutting = 1;
        if (vp_param("maa", 0)) { dbg_destroy(); tim_start("total"); maa_shutdown(); } else _pr_shutdown();
        for (i = 0; i < n; i++) {
            if (ch[i].byUser == 2) vp_assert(!ch[i].killed, "a child the caller took over is left alone");
            else vp_assert(ch[i].reaped, "no zombie is left");
        }
        shutting = 1; _pr_shutdown();
        for (i = 9; i < NFD; i++) T[i] = 0;
    }
    vp_assert(tracing || vp_live() == live0, "everything is released");
    vp_reach("end");
}
