/* Exit status of children: pr_wait, pr_close, pr_spawn. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include "procmodel.h"
static int pidWanted, budget, status, outcome, waits, reaped; 
pid_t vp_waitpid(pid_t p, int *st, int opt)
{
    vp_assert(!inChild, "the parent waits"); vp_assert(p == pidWanted, "the process asked for is waited for"); vp_assert(!(opt & WNOHANG), "the wait blocks"); vp_assert(!reaped, "a finished wait is not repeated");
    waits++;
    if (budget > 0 && vp_choice(2, "eintr")) { budget--; errno = EINTR; return -1; }
    /* whoever asks for it is also told of stops and continuations */
    if ((opt & WUNTRACED) && budget > 0 && !outcome && vp_choice(2, "stopped")) { budget--; if (st) *st = SIGSTOP << 8 | 0x7f; return p; }
    if ((opt & WCONTINUED) && budget > 0 && !outcome && vp_choice(2, "continued")) { budget--; if (st) *st = 0xffff; return p; }
    reaped = 1;
    if (outcome == 1) { errno = ECHILD; return -1; }
    if (outcome == 2) { errno = EINVAL; return -1; }
    if (st) *st = status; return p;
}
static int execOk;
static void check_exec(const char *f, char *const *a) { vp_assert(!strcmp(f, "prog") && a[0] && !strcmp(a[0], "prog") && a[1] && !strcmp(a[1], "one two") && !a[2], "command and arguments"); execOk = 1; }
void harness(void)
{
    int mode = vp_param("mode", 0), r, want, code = 0, sig = 0; static int in, out, other;
    model_init(); onExec = check_exec; budget = vp_param("eintr", 3);
    vp_capture(&stderr); trace();
    if (mode < 4) outcome = vp_choice(3, "outcome");
    if (mode == 4) want = 0;
    else if (vp_choice(2, "signaled")) { sig = (int)vp_range(1, 126, "sig"); status = sig | (vp_choice(2, "core") ? 0x80 : 0); want = sig == SIGPIPE ? 0 : 128 + sig; }
    else { code = (int)vp_sym(8, "code"); status = code << 8; want = code; }
    if (outcome == 1) want = 0; 
    if (outcome == 2) want = -1;
    if (mode == 4) {                         /* several children, one after the other */
        int i, st[2], w[2], how = vp_choice(3, "how");
        for (i = 0; i < 2; i++) {
            int cd = vp_sym(8, "c"), sg = vp_choice(2, "s") ? (int)vp_range(1, 126, "sg") : 0; st[i] = sg ? sg : cd << 8; w[i] = !sg ? cd : sg == SIGPIPE ? 0 : 128 + sg;
            status = st[i]; outcome = 0; reaped = 0; budget = 1;
            if (how == 0) { pidWanted = 77; r = pr_wait(77); }                  /* pids come again */
            else if (how == 1) { pidWanted = 1001 + i; r = pr_spawn("prog 'one two'"); }
            else { pidWanted = 1001 + i; pr_open("prog 'one two'", PR_CREATE_STDOUT, NULL, &out, NULL); r = pr_close(out); }
            vp_assert(r == w[i] && reaped, "exit status of that child");
        }
        vp_reach("sequence"); return;
    }
    if (mode == 0) { pidWanted = (int)vp_range(1, 0x7fffffff, "pid"); r = pr_wait(pidWanted); }
    else if (mode == 1) { pidWanted = 1001; r = pr_spawn("prog 'one two'"); vp_assert(nforks == 1, "one process"); }
    else if (mode == 2) {
        int first = vp_choice(2, "first"), k = vp_choice(2, "k");
        pr_open("prog 'one two'", PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL); pr_open("prog 'one two'", PR_CREATE_STDOUT, NULL, &other, NULL);
        if (first) { pidWanted = 1002; r = pr_close(other); vp_assert(!isopen(other) && isopen(in) && isopen(out), "that descriptor is closed"); }
        else { pidWanted = 1001; if (k) { vp_assert(pr_close_nowait(in) == 1001 && !isopen(in) && isopen(out), "closed without waiting"); vp_assert(!waits, "no wait"); } r = pr_close(out); vp_assert(!isopen(out) && isopen(other), "that descriptor is closed"); }
    } else {                                 /* the child of pr_spawn */
        int i; childFork = 0;
        if (vp_choice(2, "other")) { childFork = 1; pr_open("prog 'one two'", PR_CREATE_STDIN, &in, NULL, NULL); }
        if (setjmp(childEnd) == 0) { pr_spawn("prog 'one two'"); vp_fail("the child never returns"); }
        vp_assert(execOk, "the command runs"); for (i = 0; i < 3; i++) vp_assert(T[i] == i + 1, "standard streams are inherited");
        vp_reach("spawned"); return;
    }
    vp_assert(r == want, "exit status"); vp_assert(reaped, "the process was waited for");
    if (outcome == 0 && sig) vp_reach("signal"); else if (outcome == 0) vp_reach("exit"); else if (outcome == 1) vp_reach("echild"); else vp_reach("error");
}
