/* pr_open: descriptors of the child and of the parent. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include "procmodel.h"
#include "lens.h"
static int cb; static void callback(void) { vp_assert(inChild && !execed, "the callback runs in the child, before the command"); cb++; }
static const char *cmds[] = { "cat", "sort -n 'a b'", "x \"y z\"  w", "p q\\ r" };
static const char *args[][70] = { { "cat", 0 }, { "sort", "-n", "a b", 0 }, { "x", "y z", "w", 0 }, { "p", "q r", 0 } };
static int which, execOk;
static void check_exec(const char *f, char *const *a) { int i; vp_assert(!strcmp(f, args[which][0]), "command name"); for (i = 0; args[which][i]; i++) vp_assert(a[i] && !strcmp(a[i], args[which][i]), "arguments of the command"); vp_assert(!a[i], "argument list ends"); execOk = 1; }
/* (with bad=1 a file may be a number no descriptor has: the stream stays as it was) */
/* one request: per stream 0 none, 1 use file, 2 use NULL pointer, 3 use 0, 4 create; stderr also 5 to stdout */
struct req { int k[3], fd[3], given[3], bad[3], *p[3], src[3], base, flags; };
static const int U[3] = { PR_USE_STDIN, PR_USE_STDOUT, PR_USE_STDERR }, C[3] = { PR_CREATE_STDIN, PR_CREATE_STDOUT, PR_CREATE_STDERR };
static int bads, users, held[32], heldPid[32], nheld; static volatile int pids[4], npid;
static void build(struct req *r, int few)
{
    int s; static const int fewk[3][3] = { { 0, 4, 1 }, { 0, 4, 0 }, { 0, 4, 5 } };
    int same = vp_param("same", 0), j;
    memset(r, 0, sizeof *r);
    for (s = 0; s < 3; s++) {
        int k = few ? fewk[s][vp_choice(s == 1 ? 2 : 3, "kind")] : vp_choice(s == 2 ? 6 : 5, "kind");
        /* one file for more than one stream */
        for (j = same && k == 1 ? s - 1 : -1; j >= 0; j--) if (r->k[j] == 1 && !r->bad[j]) break;
        if (j >= 0) {
            r->k[s] = 1; r->fd[s] = r->fd[j]; r->p[s] = vp_choice(2, "sameVar") ? r->p[j] : &r->fd[s]; r->src[s] = r->src[j]; r->flags |= U[s]; vp_reach("same file");
            continue;
        }
        if (s == 0 && k == 4 && few && nheld && 0) k = 1;
        r->k[s] = k; r->p[s] = &r->fd[s]; r->fd[s] = -7;
        if (k == 1) {
            if (s == 0 && nheld && vp_choice(2, "pipeline")) { int i; for (i = 0; i < nheld && (T[held[i]] % 2 || !held[i]); i++) ; if (i < nheld) { r->fd[s] = held[i]; r->src[s] = T[held[i]]; memmove(held + i, held + i + 1, (nheld - i - 1) * sizeof *held); memmove(heldPid + i, heldPid + i + 1, (nheld - i - 1) * sizeof *held); nheld--; } }
            if (vp_param("bad", 0) && vp_choice(2, "bad")) { static const int few[] = { -1, NFD, 0x7fffffff, -0x7fffffff }; int n = tracing ? few[vp_choice(4, "nofd")] : (int)vp_sym(32, "nofd"); vp_assume((n < 0) | (n >= NFD)); r->fd[s] = n; r->bad[s] = 1; bads++; }
            else if (r->fd[s] == -7) { r->fd[s] = lowest(1); r->src[s] = ID_USER + users++; put(r->fd[s], r->src[s], 0); }
            r->flags |= U[s];
        } else if (k == 2) { r->p[s] = NULL; r->flags |= U[s]; }
        else if (k == 3) { r->fd[s] = 0; r->flags |= U[s]; }
        else if (k == 4) r->flags |= C[s];
        else if (k == 5) r->flags |= PR_STDERR_TO_STDOUT;
    }
    for (s = 0; s < 3; s++) r->given[s] = r->fd[s];
    r->base = npipes;
}
static void after_parent(struct req *r, int *before, int pid)
{
    int s, i, np = r->base, id[3] = { 0 };
    for (s = 0; s < 3; s++) if (r->k[s] == 4) { id[s] = ID_PIPE + 2 * np++ + (s == 0); vp_assert(isopen(r->fd[s]) && T[r->fd[s]] == id[s], "the parent gets its end of the pipe"); }
    vp_assert(npipes == np, "one pipe per stream created");
    for (i = 0; i < NFD; i++) {
        int exp = before[i];
        for (s = 0; s < 3; s++) { if (r->k[s] == 1 && r->given[s] == i) exp = 0; if (r->k[s] == 4 && r->fd[s] == i) exp = id[s]; }
        vp_assert(T[i] == exp, "the parent keeps its own descriptors and nothing else");
    }
    for (s = 0; s < 3; s++) if (r->k[s] == 4) { held[nheld] = r->fd[s]; heldPid[nheld++] = pid; }
    for (i = 0; i < nheld; i++) { int j; for (j = 0; j < i; j++) vp_assert(held[i] != held[j], "distinct descriptors"); }
}
void harness(void)
{
    int prior = vp_param("prior", 0), child = vp_param("child", 1), i, s, base; static struct req r[3]; int before[NFD]; long live0;
    model_init(); onExec = check_exec;
    if (vp_param("long", 0)) {               /* commands of many words, or with a long one */
        static char c[4800], w[66][4300]; int k = vp_choice(4, "kind"), n = k == 0 ? 1 + vp_choice(64, "words") : 1 + vp_choice(2, "at"), j; char *q = c;
        for (j = 0; j < n || j < 1; j++) { args[0][j] = a_text(w[j], 2, j); }
        if (k) a_text(w[n - 1], a_length("len"), 9); if (k == 2) w[n - 1][4] = ' ';
        for (j = 0; j < n; j++) { int z = k == 2 && j == n - 1; if (j) *q++ = ' '; if (z) *q++ = '"'; strcpy(q, w[j]); q += strlen(q); if (z) *q++ = '"'; if (k == 3 && j == n - 1) { memcpy(q, "\\'\"\"", 5); strcat(w[j], "'"); q += 4; } }
        *q = 0; args[0][n] = NULL; cmds[0] = c; if (k) vp_reach("long word"); else vp_reach("many words");
    }
    vp_capture(&stderr);
    live0 = vp_live(); trace();
    if (vp_param("low", 0)) { int m = vp_choice(7, "low") + 1; for (i = 0; i < 3; i++) if (m >> i & 1) T[i] = 0; }      /* some of 0, 1, 2 closed */
    for (i = 3; i < 6; i++) if (vp_param("holes", 1) && vp_choice(2, "open")) put(i, ID_USER + users++, 0);
    childFork = child ? prior : -1;
    for (i = 0; i <= prior; i++) {
        int pid, k;
        switch (vp_param("limit", 0)) {      /* the limit changes between the calls */
        case 1: limit = i < prior ? 12 : NFD; if (i == prior) for (k = 3; k < 14; k++) if (!T[k]) put(k, ID_USER + users++, 0); break;
        case 2: for (k = 3; k < 30; k++) if (!prior || i < prior) { if (!T[k]) put(k, ID_USER + users++, 0); } else if (T[k] >= ID_USER && T[k] < ID_PIPE) T[k] = 0;
                limit = i < prior ? NFD : 12; break;
        }
        if (!vp_param("long", 0)) build(&r[i], i < prior || prior > 0);
        which = vp_param("long", 0) ? 0 : vp_choice(i == prior ? 4 : 1, "cmd");
        memcpy(before, T, sizeof T);
        if (i == prior && child) break;
        pid = vp_choice(i == prior ? 2 : 1, "cb") ? pr_open2(cmds[which], callback, r[i].flags, r[i].p[0], r[i].p[1], r[i].p[2]) : pr_open(cmds[which], r[i].flags, r[i].p[0], r[i].p[1], r[i].p[2]);
        vp_assert(pid == 1001 + i && nforks == i + 1, "one process per call, its id returned"); vp_assert(!cb, "the callback is not run in the parent");
        after_parent(&r[i], before, pid); pids[npid++] = pid;
    }
    if (vp_param("fail", 0)) {               /* no pipe, or no process: the program ends, nothing is started */
        int np = 0; for (s = 0; s < 3; s++) np += r[prior].k[s] == 4;
        if (vp_choice(2, "forkfails") || !np) forkFails = 1; else pipeFails = npipes + vp_choice(np, "pipe");
        if (VP_CATCH) { pr_open(cmds[which], r[prior].flags, r[prior].p[0], r[prior].p[1], r[prior].p[2]); VP_END_CATCH; vp_fail("a failing system call ends the program"); }
        vp_assert(vp_end_kind == 1 && vp_end_code == 1, "exit status"); vp_assert(nforks == prior, "no process was started");
        vp_reach("failed");
        return;
    }
    if (vp_param("noexec", 0)) {             /* the command cannot be run */
        execFails = 1;
        if (VP_CATCH) { if (vp_choice(2, "spawn")) pr_spawn(cmds[which]); else pr_open(cmds[which], r[prior].flags, r[prior].p[0], r[prior].p[1], r[prior].p[2]); VP_END_CATCH; vp_fail("the child never returns"); }
        vp_assert(vp_end_kind == 3 && vp_end_code == 127, "a command that cannot be run: the child ends at once with status 127");
        vp_reach("noexec");
        return;
    }
    if (vp_param("spawn", 0)) {              /* pr_spawn: everything inherited but the library's own */
        if (setjmp(childEnd) == 0) { pr_spawn(cmds[which]); vp_fail("the child never returns"); }
        vp_assert(execOk, "the command runs");
        for (i = 0; i < NFD; i++) { int exp = before[i]; if (exp >= ID_PIPE && exp < ID_NULL) exp = 0; vp_assert(T[i] == exp, "the child has what the program has, but nothing of other children"); }
        vp_reach("spawned");
        return;
    }
    if (child) {
        int id[3], np = r[prior].base, wantcb = vp_choice(2, "cb");
        if (setjmp(childEnd) == 0) { pr_open2(cmds[which], wantcb ? callback : NULL, r[prior].flags, r[prior].p[0], r[prior].p[1], r[prior].p[2]); vp_fail("the child never returns"); }
        vp_assert(execOk, "the command runs"); vp_assert(cb == wantcb, "the callback runs once");
        for (s = 0; s < 3; s++) {
            int k = r[prior].k[s];
            id[s] = k == 0 ? before[s] : k == 1 ? r[prior].src[s] : k == 4 ? ID_PIPE + 2 * np++ + (s != 0) : k == 5 ? id[1] : ID_NULL + (s ? O_WRONLY : O_RDONLY);
            if (r[prior].bad[s]) id[s] = before[s];
            if (k == 0) { int j; for (j = 0; j < nheld; j++) if (held[j] == s) id[s] = 0; for (j = 0; j < 3; j++) if (r[prior].k[j] == 1 && r[prior].given[j] == s && !T[s]) id[s] = 0; }
            if (k == 2 || k == 3) vp_assert(T[s] >= ID_NULL && (T[s] == id[s] || T[s] == ID_NULL + O_RDWR), "an unused stream is /dev/null");
            else if (k == 5 && !T[1]) vp_assert(!T[2] || T[2] == before[2], "errors joined to a closed output: closed or as they were");
            else vp_assert(T[s] == id[s], "standard stream of the child");
            if (k == 5 && T[1]) vp_assert(T[2] == T[1], "stderr goes where stdout goes");
        }
        for (i = 3; i < NFD; i++) {
            int exp = before[i], j;
            for (s = 0; s < 3; s++) if (r[prior].k[s] == 1 && r[prior].given[s] == i) exp = 0;
            for (j = 0; j < nheld; j++) if (held[j] == i) exp = 0;            /* pipes of other children */
            vp_assert(T[i] == exp, "no stray descriptor in the child");
        }
        vp_reach("child");
        return;
    }
    vp_reach("parent"); if (bads) vp_reach("no such file");
    for (i = 0; i <= prior; i++) for (s = 0; s < 3; s++) if (r[i].k[s] == 1) {      /* a file handed over is the library's no longer */
        int j, fd = r[i].given[s];
        if (r[i].bad[s]) continue;
        for (j = 0; j < nheld; j++) if (held[j] == fd) break;
        if (j < nheld) continue;
        if (vp_choice(2, "reuse") && !T[fd]) put(fd, ID_USER + users++, 0);
        memcpy(before, T, sizeof T);
        if (VP_CATCH) { pr_close_nowait(fd); VP_END_CATCH; vp_fail("a descriptor handed over is refused"); }
        vp_assert(vp_end_kind == 2 && T[fd] == before[fd], "refused, and not closed");
    }
    for (i = 0; i < nheld; i++) { int fd = held[i]; vp_assert(pr_close_nowait(fd) == heldPid[i], "closing tells the process"); vp_assert(!T[fd], "descriptor closed"); }
    (void)base; (void)live0;
}
