/* A set is a mathematical set of element classes, whatever the hash function. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include "few.h"
#include <string.h>
#ifndef MAXK
#define MAXK 64
#endif
struct key { int cls; int rep; };
static struct key keys[MAXK][2]; static unsigned long hv[MAXK];
static const void *present[MAXK]; static int K, seen[MAXK], cnt, stopAt;
static unsigned long h(const void *k) { return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { return unequal(((const struct key*)a)->cls, ((const struct key*)b)->cls); }
static set_Set S; static int look;
static int visit(const void *e)
{
    int c = ((const struct key*)e)->cls;
    vp_assert(present[c] == e, "delivers the inserted element pointers");
    vp_assert(!seen[c], "delivers an element once");
    seen[c] = 1; cnt++;
    if (look) { int i; for (i = K - 1; i >= 0; i -= look) vp_assert(set_member(S, &keys[i][1]) == (present[i] != NULL), "membership asked during an iteration"); }
    return cnt == stopAt ? yes(cnt) : 0;
}
static int argx;
static int visita(const void *e, void *a) { vp_assert(a == &argx, "argument passed through"); return visit(e); }
static const unsigned long big[8] = { 0, 1, 2, 37, 0x100000001UL, 0x8000000000000000UL, 0xffffffffffffffffUL, 0xffffffffUL };

static void check_all(set_Set s)
{
    int i, n = 0, r; set_Stats st; set_Position p; void *e;
    for (i = 0; i < K; i++) { vp_assert(set_member(s, &keys[i][i & 1]) == (present[i] != NULL), "membership"); n += present[i] != NULL; }
    vp_assert(set_count(s) == n, "count");
    st = set_get_stats(s); vp_assert(st->entries == (unsigned long)n, "stats"); xfree(st);
    S = s; look = K > 64 ? 97 : 1;
    memset(seen, 0, sizeof seen); cnt = 0; stopAt = 0;
    vp_assert(set_iterate(s, visit) == 0, "iteration completes");
    vp_assert(cnt == n, "iteration delivers everything");
    memset(seen, 0, sizeof seen); cnt = 0;
    SET_ITERATE(s, p, e) visit(e);
    vp_assert(cnt == n, "position iteration delivers everything");
    vp_assert(set_readonly(s, 0) == 0, "writable after a complete iteration");
    memset(seen, 0, sizeof seen); cnt = 0;
    vp_assert(set_iterate_arg(s, visita, &argx) == 0, "iteration completes"); vp_assert(cnt == n, "iteration delivers everything"); look = 0;
    if (n) {
        stopAt = few(n, "stop") + 1; memset(seen, 0, sizeof seen); cnt = 0;
        r = set_iterate_arg(s, visita, &argx);
        vp_assert(r != 0 && cnt == stopAt, "iteration stops on request");
        stopAt = 0;
    }
}
void harness(void)
{
    int i, pre = vp_param("prefill", 0), n = vp_param("ops", 3), hm = vp_param("hm", 0), bits = vp_param("bits", 5);
    long live0 = vp_live();
    set_Set s;
    K = pre + vp_param("keys", 3);
    for (i = 0; i < K; i++) {
        keys[i][0].cls = keys[i][1].cls = i;
        hv[i] = i < pre ? (unsigned long)i * (hm == 2 ? 0 : 7) + 3 : hm == 1 ? big[vp_sym(3, "hsel")] : vp_param("base", 0) + vp_sym(bits, "hash");
    }
    s = set_create(h, cmp);
    vp_assert(set_get_hash(s) == h && set_get_compare(s) == cmp, "functions are kept");
    for (i = 0; i < pre; i++) { vp_assert(set_insert(s, &keys[i][0]) == 0, "prefill"); present[i] = &keys[i][0]; }
    for (i = 0; i < vp_param("churn", 0); i++) {        /* a long life before */
        int k = i * 7 % pre;
        if (present[k]) { vp_assert(set_delete(s, &keys[k][i & 1]) == 0, "delete of an element that is there"); present[k] = NULL; }
        if (i % 5 || i + 2 * pre > vp_param("churn", 0)) { vp_assert(set_insert(s, &keys[k][i & 1]) == 0, "insert of an element that is not there"); present[k] = &keys[k][i & 1]; }
        if (i % 3 == 0) { k = i * 11 % pre; vp_assert(set_member(s, &keys[k][0]) == (present[k] != NULL), "member"); }
    }
    for (i = 0; i < n; i++) {
        int op = vp_choice(3, "op"), k = pre + vp_choice(K - pre, "key"), r = i & 1;
        if (op == 0) {
            vp_assert(set_insert(s, &keys[k][r]) == (present[k] != NULL), "insert reports whether it was there");
            if (!present[k]) present[k] = &keys[k][r];
        } else if (op == 1) {
            vp_assert(set_delete(s, &keys[k][r]) == (present[k] == NULL), "delete reports whether it was absent");
            present[k] = NULL;
        } else vp_assert(set_member(s, &keys[k][r]) == (present[k] != NULL), "member");
        vp_assert(set_count(s) >= 0, "count");
    }
    check_all(s);
    vp_reach("end");
    set_destroy(s);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
