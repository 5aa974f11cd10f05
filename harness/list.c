/* Lists are finite sequences of pointers. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include "few.h"
#include <string.h>
#ifndef MAXN
#define MAXN 40
#endif
static const void *m[2][MAXN]; static int n[2];
static int idx, stopAt, which; static void *xarg;
static int it(const void *d) { vp_assert(idx < n[which] && d == m[which][idx], "iteration delivers the elements in order"); idx++; return idx == stopAt ? yes(idx) : 0; }
static int ita(const void *d, void *a) { vp_assert(a == xarg, "argument passed through"); return it(d); }
static void check(lst_List l, int w)
{
    int i; lst_Position p; void *e;
    vp_assert(lst_length(l) == (unsigned)n[w], "length");
    vp_assert(lst_top(l) == (n[w] ? m[w][0] : NULL), "first element");
    for (i = 0; i <= n[w] + 1; i++) {
        vp_assert(lst_nth_get(l, i) == (i >= 1 && i <= n[w] ? m[w][i - 1] : NULL), "n-th element");
        p = lst_nth_position(l, i);
        vp_assert((p != NULL) == (i >= 1 && i <= n[w]), "n-th position");
        vp_assert(lst_get_position(p) == (p ? m[w][i - 1] : NULL), "datum at the n-th position");
    }
    i = 0;
    LST_ITERATE(l, p, e) { vp_assert(i < n[w] && e == m[w][i], "positions in order"); i++; }
    vp_assert(i == n[w], "positions cover the list");
    p = lst_last_position(l);
    vp_assert(n[w] ? lst_get_position(p) == m[w][n[w] - 1] && lst_next_position(p) == NULL : p == NULL, "last position");
    idx = 0; stopAt = 0; which = w;
    vp_assert(lst_iterate(l, it) == 0 && idx == n[w], "iteration is complete");
    idx = 0; xarg = &p;
    vp_assert(lst_iterate_arg(l, ita, &p) == 0 && idx == n[w], "iteration with argument is complete");
}
static int nfresh;
static const void *fresh(void) { if (vp_param("hist", 0)) return (void*)(uintptr_t)(++nfresh + 1000); return (const void*)vp_sym(vp_param("databits", 3), "datum"); }
/* one access anywhere: what later accesses give must not depend on it */
static void peek(lst_List l, int w)
{
    int k = few(n[w] + 1, "peek"), how = vp_choice(vp_param("hist", 0), "how"); lst_Position p;
    if (how == 0) vp_assert(lst_nth_get(l, k) == (k ? m[w][k - 1] : NULL), "n-th element");
    else if (how == 1) { p = lst_nth_position(l, k); vp_assert(lst_get_position(p) == (k ? m[w][k - 1] : NULL), "datum at the n-th position"); }
    else if (how == 2) vp_assert(lst_member(l, k ? m[w][k - 1] : (void*)&k) == (k != 0), "membership by pointer");
    else { p = lst_last_position(l); vp_assert(lst_get_position(p) == (n[w] ? m[w][n[w] - 1] : NULL), "last position"); }
}
void harness(void)
{
    int i, j, k, ops = vp_param("ops", 3), pre = vp_param("prefill", 0), nl = vp_param("lists", 1), kinds = vp_param("kinds", 12);
    long live0; lst_List l[2];
    live0 = vp_live();
    if (vp_param("reuse", 0)) {              /* a list that does not grow takes no more memory */
        long live = 0; int round, len = vp_param("reuse", 0);
        l[0] = lst_create();
        for (round = 0; round < 3; round++) {
            int from = vp_choice(len, "keep");                  /* how many stay */
            while (n[0] < len) { const void *d = (void*)(uintptr_t)(n[0] + 10 * round + 1); m[0][n[0]++] = d; lst_append(l[0], d); }
            if (!round) live = vp_live();
            else vp_assert(vp_live() <= live, "memory of removed elements is used again");
            switch (vp_choice(4, "remove")) {
            case 0: while (n[0] > from) { vp_assert(lst_pop(l[0]) == m[0][0], "pop returns the first element"); memmove(&m[0][0], &m[0][1], --n[0] * sizeof m[0][0]); } break;
            case 1: lst_truncate(l[0], from); n[0] = from; break;
            case 2: lst_truncate_position(l[0], lst_nth_position(l[0], from)); n[0] = from; break;
            default: lst_destroy(l[0]); l[0] = lst_create(); n[0] = 0; break;
            }
            check(l[0], 0);
        }
        lst_destroy(l[0]); _lst_shutdown();
        vp_assert(vp_live() == live0, "destroying the lists and the pool releases everything");
        vp_reach("reused");
        return;
    }
    for (i = 0; i < nl; i++) { l[i] = lst_create(); for (j = 0; j < pre; j++) { m[i][n[i]] = (void*)(uintptr_t)(j + 1 + 100 * i); lst_append(l[i], m[i][n[i]++]); } }
    for (i = 0; i < vp_param("churn", 0); i++) {          /* a long life before */
        const void *d = (void*)(uintptr_t)(i + 5000);
        if (i % 3 == 0) { vp_assert(lst_pop(l[0]) == m[0][0], "pop returns the first element"); memmove(&m[0][0], &m[0][1], --n[0] * sizeof m[0][0]); lst_append(l[0], d); m[0][n[0]++] = d; }
        else if (i % 3 == 1) { memmove(&m[0][1], &m[0][0], n[0] * sizeof m[0][0]); m[0][0] = d; n[0]++; lst_push(l[0], d); lst_truncate(l[0], pre); n[0] = pre; }
        else { lst_nth_set(l[0], 1 + i % pre, d); m[0][i % pre] = d; }
    }
    if (vp_param("hist", 0)) peek(l[0], 0);
    for (i = 0; i < ops; i++) {
        int w = vp_choice(nl, "list"), op = vp_choice(kinds, "op");
        const void *d; lst_Position p;
        switch (op) {
        case 0: m[w][n[w]++] = d = fresh(); lst_append(l[w], d); break;
        case 1: d = fresh(); memmove(&m[w][1], &m[w][0], n[w] * sizeof m[0][0]); m[w][0] = d; n[w]++; lst_push(l[w], d); break;
        case 2: d = lst_pop(l[w]);
                vp_assert(d == (n[w] ? m[w][0] : NULL), "pop returns the first element");
                if (n[w]) { n[w]--; memmove(&m[w][0], &m[w][1], n[w] * sizeof m[0][0]); }
                break;
        case 3: k = few(n[w] + 2, "len"); lst_truncate(l[w], k); if (k < n[w]) n[w] = k; break;
        case 4: k = few(n[w] + 1, "pos"); lst_truncate_position(l[w], k ? lst_nth_position(l[w], k) : NULL); n[w] = k; break;
        case 5: if (n[w]) { k = few(n[w], "idx"); d = fresh(); lst_nth_set(l[w], k + 1, d); m[w][k] = d; } break;
        case 6: if (n[w]) { k = few(n[w], "idx"); d = fresh(); lst_set_position(lst_nth_position(l[w], k + 1), d); m[w][k] = d; } break;
        case 7: { int found = 0; d = fresh(); for (k = 0; k < n[w]; k++) found |= m[w][k] == d; vp_assert((lst_member(l[w], d) != 0) == found, "membership by pointer"); } break;
        case 8: stopAt = few(n[w] + 2, "stop"); idx = 0; which = w;
                k = lst_iterate(l[w], it);
                vp_assert((k != 0) == (stopAt >= 1 && stopAt <= n[w]), "result tells whether it was stopped");
                vp_assert(idx == (k ? stopAt : n[w]), "stops exactly there");
                idx = 0; xarg = &k;
                vp_assert((lst_iterate_arg(l[w], ita, &k) != 0) == (stopAt >= 1 && stopAt <= n[w]), "result tells whether it was stopped (with argument)");
                vp_assert(idx == (stopAt >= 1 && stopAt <= n[w] ? stopAt : n[w]), "stops exactly there (with argument)");
                break;
        case 9: vp_assert(lst_next_position(NULL) == NULL && lst_get_position(NULL) == NULL, "no position"); lst_set_position(NULL, &i);
                p = lst_init_position(l[w]); vp_assert((p == NULL) == (n[w] == 0), "initial position"); break;
        case 10: /* destroy and create anew: elements of other lists stay */
                lst_destroy(l[w]); l[w] = lst_create(); n[w] = 0; break;
        case 11: { unsigned int big = (unsigned)vp_range(n[w] + 1, 0xffffffffu, "big"); vp_assert(lst_nth_get(l[w], big) == NULL && lst_nth_position(l[w], big) == NULL, "no such element"); lst_truncate(l[w], big); } break;
        }
        if (vp_param("each", 0)) check(l[w], w);
    }
    if (vp_param("hist", 0)) peek(l[0], 0);
    for (i = 0; i < nl; i++) check(l[i], i);
    vp_reach("end");
    for (i = 0; i < nl; i++) lst_destroy(l[i]);
    _lst_shutdown();
    vp_assert(vp_live() == live0, "destroying the lists and the pool releases everything");
}
