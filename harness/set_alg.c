/* union, intersection, difference, in-place addition and removal, equality. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include <string.h>
#ifndef MAXK
#define MAXK 64
#endif
struct key { int cls; int rep; };
static struct key keys[MAXK][2]; static unsigned long hv[MAXK]; static int K;
static unsigned long h(const void *k) { return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { return unequal(((const struct key*)a)->cls, ((const struct key*)b)->cls); }
static unsigned long h2(const void *k) { return h(k); }
static int cmp2(const void *a, const void *b) { return cmp(a, b); }
static int seen[MAXK], cnt; static int ina[MAXK], inb[MAXK];
static int visit(const void *e) { int c = ((const struct key*)e)->cls; vp_assert(!seen[c], "no duplicates"); seen[c] = 1; cnt++; return 0; }
static void expect(set_Set s, const int *want, const char *what)
{
    int i, n = 0;
    memset(seen, 0, sizeof seen); cnt = 0;
    set_iterate(s, visit);
    for (i = 0; i < K; i++) { vp_assert(seen[i] == want[i], what); n += want[i]; }
    vp_assert(set_count(s) == n, what);
    for (i = 0; i < K; i++) vp_assert(set_member(s, &keys[i][i & 1]) == want[i], what);
}
void harness(void)
{
    int i, op = vp_param("op", 0), pre = vp_param("prefill", 0), preA = vp_param("preA", pre), preB0 = vp_param("preB0", 0), preB = vp_param("preB", 0), alias = vp_param("alias", 0), mism = vp_param("mismatch", 0), want[MAXK];
    long live0;
    volatile int r = 0;
    set_Set volatile A, B, R = NULL;
    K = pre + vp_param("keys", 3);
    if (mism) vp_capture(&stderr);
    live0 = vp_live();
    for (i = 0; i < K; i++) { keys[i][0].cls = keys[i][1].cls = i; hv[i] = i < pre ? (unsigned long)i * 5 + 2 : vp_param("base", 0) + vp_sym(vp_param("bits", 4), "hash"); }
    A = set_create(h, cmp);
    B = alias ? A : set_create(mism & 1 ? h2 : h, mism & 2 ? cmp2 : cmp);
    for (i = 0; i < K; i++) {
        ina[i] = i < pre ? i < preA : vp_choice(2, "inA"); if (ina[i]) set_insert(A, &keys[i][0]);
        if (alias) inb[i] = ina[i];
        else { inb[i] = i < pre ? i >= preB0 && i < preB : vp_choice(2, "inB"); if (inb[i]) set_insert(B, &keys[i][1]); }
    }
    if (mism) {
        if (VP_CATCH) {
            if (op == 0) set_union(A, B); else if (op == 1) set_inter(A, B); else if (op == 2) set_diff(A, B);
            else if (op == 3) set_add(A, B); else if (op == 4) set_del(A, B); else set_equal(A, B);
            VP_END_CATCH;
            vp_fail("sets with different functions are refused");
        }
        vp_assert(vp_end_kind != 0, "refused by a fatal error");
        for (i = 0; i < K; i++) vp_assert(set_member(A, &keys[i][0]) == ina[i] && set_member(B, &keys[i][0]) == inb[i], "operands unchanged");
        vp_reach("mismatch");
        return;
    }
    if (vp_param("twice", 0)) {              /* the same operation before, on slightly different sets */
        int w = vp_choice(2, "side") && !alias, k = pre + vp_choice(K - pre, "changed"), *in = w ? inb : ina; set_Set s = w ? B : A, r0 = NULL;
        switch (op) {
        case 0: r0 = set_union(A, B); break;
        case 1: r0 = set_inter(A, B); break;
        case 2: r0 = set_diff(A, B); break;
        case 3: set_add(A, B); for (i = 0; i < K; i++) ina[i] |= inb[i]; break;
        case 4: { int a0[MAXK]; memcpy(a0, inb, sizeof a0); set_del(A, B); for (i = 0; i < K; i++) ina[i] &= !a0[i]; } break;
        case 5: set_equal(A, B); set_equal(B, A); break;
        }
        if (vp_choice(2, "drop") && r0) { set_destroy(r0); r0 = NULL; }
        in[k] = !in[k]; if (in[k]) set_insert(s, &keys[k][w]); else set_delete(s, &keys[k][w]);
        if (vp_choice(2, "count")) { int c = 0; for (i = 0; i < K; i++) c += ina[i]; vp_assert(set_count(A) == c, "count"); }
        if (r0) set_destroy(r0);
    }
    for (i = 0; i < K; i++)
        want[i] = op == 0 || op == 3 ? ina[i] | inb[i] : op == 1 ? ina[i] & inb[i] : ina[i] & !inb[i];
    switch (op) {
    case 0: R = set_union(A, B); break;
    case 1: R = set_inter(A, B); break;
    case 2: R = set_diff(A, B); break;
    case 3: R = set_add(A, B); break;
    case 4: R = set_del(A, B); break;
    case 5: r = set_equal(A, B); break;
    }
    if (op <= 2) {
        vp_assert(R != A && R != B, "the result is a new set");
        expect(R, want, "result of the operation");
        expect(A, ina, "first operand unchanged"); expect(B, inb, "second operand unchanged");
        vp_assert(set_get_hash(R) == h && set_get_compare(R) == cmp, "result uses the same functions");
        /* independence: changing the result leaves the operands alone */
        for (i = pre; i < K; i++) set_delete(R, &keys[i][0]);
        for (i = 0; i < K; i++) vp_assert(set_member(A, &keys[i][0]) == ina[i] && set_member(B, &keys[i][0]) == inb[i], "result is independent of the operands");
        set_destroy(R);
    } else if (op <= 4) {
        vp_assert(R == A, "returns the first set");
        expect(A, want, "result of the operation");
        if (!alias) expect(B, inb, "second operand unchanged");
    } else {
        int eq = 1;
        for (i = 0; i < K; i++) if (ina[i] != inb[i]) eq = 0;
        vp_assert((r != 0) == eq, "equality");
        vp_assert((set_equal(B, A) != 0) == eq, "equality is symmetric");
        expect(A, ina, "first operand unchanged"); expect(B, inb, "second operand unchanged");
    }
    vp_reach("end");
    set_destroy(A); if (!alias) set_destroy(B);
    vp_assert(vp_live() == live0, "nothing leaks");
}
