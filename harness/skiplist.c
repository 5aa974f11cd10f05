/* Skip lists are ordered sets, whatever levels random() gives. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include "few.h"
#include "trace.h"
#include <string.h>
#ifndef MAXN
#define MAXN 40
#endif
static int rmode, ones, maxones, phase;
long vp_random(void)
{
    if (rmode == 1) return 0x7fffffff;                     /* always one level more */
    if (rmode == 2) return 0;
    if (rmode == 3) { phase++; return phase % 3 ? 0x7fffffff : 0; }
    if (ones >= maxones) return 0;
    if (vp_choice(2, "level")) { ones++; return 0x7fffffff; }
    return 0;
}
static int key[MAXN], in[MAXN], N, calls;
static const void *kf(const void *d) { return &key[(const int*)d - key]; }
static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return unequal(x, y); }
static sl_List L;
static int seen[MAXN], prev, stopAt, stopRet, mutate, startIn[MAXN]; static void *xarg;
static int visit(const void *d)
{
    int c = (const int*)d - key;
    vp_assert(c >= 0 && c < N && startIn[c], "only data of the list"); vp_assert(!seen[c], "each datum once");
    if (prev >= 0) vp_assert(key[prev] < key[c], "ascending order");
    prev = c; seen[c] = 1; calls++;
    if (mutate == 1 && in[c]) { sl_delete(L, d); in[c] = 0; }
    if (mutate == 2) { int i; for (i = 0; i < N; i++) if (!in[i]) { sl_insert(L, &key[i]); in[i] = 1; break; } }
    if (mutate == 3) { int i; for (i = N - 1; i >= 0; i--) if (in[i] && i != c) { sl_delete(L, &key[i]); in[i] = 0; break; } }
    return calls == stopAt ? stopRet : 0;
}
static int visita(const void *d, void *a) { vp_assert(a == xarg, "argument passed through"); return visit(d); }
static void find(int k) { vp_assert(sl_find(L, &key[k]) == (in[k] ? (const void*)&key[k] : NULL), "find tells membership"); }
static void check(void)
{
    int i, n = 0;
    for (i = 0; i < N; i++) { find(i); n += in[i]; startIn[i] = in[i]; }
    memset(seen, 0, sizeof seen); prev = -1; calls = 0; stopAt = 0; mutate = 0;
    vp_assert(sl_iterate(L, visit) == 0, "full iteration"); vp_assert(calls == n, "iteration visits every datum");
}
void harness(void)
{
    int i, j, n = vp_param("keys", 3), ops = vp_param("ops", 3), pre = vp_param("prefill", 0), sub = vp_param("sub", 0), present = 0;
    long live0 = vp_live(); trace();
    rmode = vp_param("rnd", 0); maxones = vp_param("ones", 3);
    N = pre + n;
    L = sl_create(cmp, kf, NULL);
    vp_assert(sl_find(L, &key[0]) == NULL, "a new list is empty");
    for (i = 0; i < pre; i++) { key[i] = pre <= 100 ? (i * 7 % 11) * 100 + i : vp_param("asc", 0) ? i * 7 : vp_param("desc", 0) ? (pre - i) * 7 : i * 389 % 1009; sl_insert(L, &key[i]); in[i] = 1; }
    for (i = 0; i < vp_param("churn", 0); i++) { j = i * 5 % pre; if (i % 4) { sl_delete(L, &key[j]); sl_insert(L, &key[j]); } else { sl_delete(L, &key[j]); vp_assert(sl_find(L, &key[j]) == NULL, "deleted"); sl_insert(L, &key[j]); vp_assert(sl_find(L, &key[j]) == &key[j], "inserted"); } }
    for (i = pre; i < N; i++) { key[i] = (int)vp_range(0, vp_param("maxkey", 15), "key"); if (vp_param("off", 0)) key[i] = key[i] * 37 + 5; for (j = 0; j < i; j++) vp_assume(key[j] != key[i]); }
    for (i = 0; i < ops; i++) {
        int k = vp_param("order", 0) ? pre + i % n : few(N, "which");
        if (vp_param("find", 0)) { int q = vp_choice(N + 1, "find"); if (q < N) find(q); }     /* what a find sees does not depend on earlier ones */
        if (!in[k]) { sl_insert(L, &key[k]); in[k] = 1; }
        else { sl_delete(L, &key[k]); in[k] = 0; }
    }
    if (vp_param("find", 0)) find(vp_choice(N, "first"));
    check();
    for (i = 0; i < N; i++) present += in[i];
    if (sub) {                               /* traversal with stops and modifications by the callback */
        int r, want;
        mutate = vp_choice(4, "mutate"); stopAt = few(present + 2, "stop"); stopRet = vp_choice(2, "ret") ? -3 : yes(stopAt + 1);
        memset(seen, 0, sizeof seen); prev = -1; calls = 0;
        if (mutate == 3) {
            /* later data may be deleted by the callback: what stays must be visited */
            if (vp_choice(2, "arg")) { xarg = &r; r = sl_iterate_arg(L, visita, &r); } else r = sl_iterate(L, visit);
            if (!r) for (i = 0; i < N; i++) if (in[i]) vp_assert(seen[i], "data that stay are visited");
        } else {
            if (vp_choice(2, "arg")) { xarg = &r; r = sl_iterate_arg(L, visita, &r); } else r = sl_iterate(L, visit);
            want = stopAt >= 1 && stopAt <= present ? stopAt : present;
            vp_assert(calls == want, "visits the data present at the start, up to the stop");
            vp_assert(r == (stopAt >= 1 && stopAt <= present ? stopRet : 0), "returns what the callback returned");
        }
        check();
    }
    vp_reach("end");
    sl_destroy(L);
    { sl_List l2 = sl_create(cmp, kf, NULL); vp_assert(sl_find(l2, &key[0]) == NULL, "a new list is empty"); vp_assert(sl_iterate(l2, visit) == 0, "nothing to visit"); sl_insert(l2, &key[0]); vp_assert(sl_find(l2, &key[0]) == &key[0], "usable"); sl_destroy(l2); }
    _sl_shutdown();
    vp_assert(tracing || vp_live() == live0, "everything is released");
}
