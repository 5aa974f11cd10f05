/* Stacks are last-in first-out. */
#include "maa.h"
#include "vp.h"
#ifndef MAXN
#define MAXN 64
#endif
static void *m[2][MAXN]; static int n[2];
void harness(void)
{
    int i, j, ops = vp_param("ops", 6), pre = vp_param("prefill", 0);
    long live0 = vp_live();
    stk_Stack s[2];
    for (i = 0; i < 2; i++) { s[i] = stk_create(); for (j = 0; j < pre; j++) stk_push(s[i], m[i][n[i]++] = (void*)(uintptr_t)(j * 2 + i)); }
    for (i = 0; i < ops; i++) {
        int w = vp_choice(2, "stack");
        if (vp_choice(2, "push")) { void *d = (void*)vp_sym(64, "datum"); stk_push(s[w], d); m[w][n[w]++] = d; }
        else { void *d = stk_pop(s[w]); vp_assert(d == (n[w] ? m[w][n[w] - 1] : NULL), "pop returns the last pushed"); if (n[w]) n[w]--; }
        for (j = 0; j < 2; j++) {
            vp_assert(stk_top(s[j]) == (n[j] ? m[j][n[j] - 1] : NULL), "top is the last pushed, and stays");
            vp_assert((stk_isempty(s[j]) != 0) == (n[j] == 0), "empty exactly when everything was popped");
        }
    }
    if (vp_choice(2, "drain"))
        for (j = 0; j < 2; j++) while (n[j]) { vp_assert(!stk_isempty(s[j]), "not empty"); vp_assert(stk_pop(s[j]) == m[j][--n[j]], "order of removal"); }
    vp_reach("end");
    stk_destroy(s[0]); stk_destroy(s[1]);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
