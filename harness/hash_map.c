/* The hash table is a map from key classes to data, whatever the hash function. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include "few.h"
#include <string.h>
#ifndef MAXK
#define MAXK 64
#endif
struct key { int cls; int rep; };
static struct key keys[MAXK][2];
static unsigned long hv[MAXK];
static int data[MAXK * 8];
static int present[MAXK]; static const void *val[MAXK], *who[MAXK];
static int K, seen[MAXK], cnt;

static unsigned long h(const void *k) { return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { return unequal(((const struct key*)a)->cls, ((const struct key*)b)->cls); }
static int it(const void *k, const void *d)
{
    int c = ((const struct key*)k)->cls;
    vp_assert(present[c], "iteration delivers only present keys");
    vp_assert(!seen[c], "iteration delivers a key once");
    vp_assert(who[c] == k, "iteration delivers the key pointers that were inserted");
    vp_assert(val[c] == d, "iteration delivers the datum of the key");
    seen[c] = 1; cnt++;
    return 0;
}
static const unsigned long big[8] = { 0, 1, 2, 37, 0x100000001UL, 0x8000000000000000UL, 0xffffffffffffffffUL, 0xffffffffUL };

static void check_all(hsh_HashTable t)
{
    int i, n = 0; hsh_Stats st;
    for (i = 0; i < K; i++) {
        const void *d = hsh_retrieve(t, &keys[i][i & 1]);
        vp_assert(d == (present[i] ? val[i] : NULL), "retrieve at the end");
        n += present[i];
    }
    memset(seen, 0, sizeof seen); cnt = 0;
    vp_assert(hsh_iterate(t, it) == 0, "full iteration returns 0");
    vp_assert(cnt == n, "iteration visits every key");
    st = hsh_get_stats(t);
    vp_assert(st->entries == (unsigned long)n, "stats count entries");
    xfree(st);
    for (i = 0; i < K; i++)
        vp_assert(hsh_retrieve(t, &keys[i][0]) == (present[i] ? val[i] : NULL), "retrieve again");
}

void harness(void)
{
    int i, nd = 0, pre = vp_param("prefill", 0), n = vp_param("ops", 3), hm = vp_param("hm", 0), bits = vp_param("bits", 6);
    long live0 = vp_live();
    hsh_HashTable t;
    K = pre + vp_param("keys", 3);
    for (i = 0; i < K; i++) {
        keys[i][0].cls = keys[i][1].cls = i; keys[i][1].rep = 1;
        if (i < pre) hv[i] = (unsigned long)i * (hm == 2 ? 0 : 7) + 3;
        else hv[i] = hm == 1 ? big[vp_sym(3, "hsel")] : vp_param("base", 0) + vp_sym(bits, "hash");
    }
    t = hsh_create(h, cmp);
    for (i = 0; i < pre; i++) {
        vp_assert(hsh_insert(t, &keys[i][0], &data[nd]) == 0, "prefill insert");
        present[i] = 1; val[i] = &data[nd++]; who[i] = &keys[i][0];
    }
    for (i = 0; i < vp_param("churn", 0); i++) {        /* a long life before */
        int k = i * 7 % pre;
        if (present[k]) { vp_assert(hsh_delete(t, &keys[k][i & 1]) == 0, "delete of a key that is there"); present[k] = 0; val[k] = NULL; }
        if (i % 5 || i + 2 * pre > vp_param("churn", 0)) { vp_assert(hsh_insert(t, &keys[k][i & 1], &data[i % 9]) == 0, "insert of a key that is not there"); present[k] = 1; val[k] = &data[i % 9]; who[k] = &keys[k][i & 1]; }
        if (i % 3 == 0) { k = i * 11 % pre; vp_assert(hsh_retrieve(t, &keys[k][0]) == (present[k] ? val[k] : NULL), "retrieve"); }
    }
    for (i = 0; i < n; i++) {
        int op = vp_choice(3, "op"), k = pre + vp_choice(K - pre, "key"), r = i & 1;
        if (pre && i == 0 && vp_param("preop", 0)) k = few(pre, "prekey");
        if (op == 0) {
            const void *datum = (const void*)(uintptr_t)vp_sym(64, "datum");         /* any pointer, also none */
            int rc = hsh_insert(t, &keys[k][r], datum);
            vp_assert(rc == present[k], "insert reports whether the key was there");
            if (!present[k]) { present[k] = 1; val[k] = datum; who[k] = &keys[k][r]; }
        } else if (op == 1) {
            int rc = hsh_delete(t, &keys[k][r]);
            vp_assert(rc == !present[k], "delete reports whether the key was absent");
            present[k] = 0; val[k] = NULL;
        } else {
            const void *d = hsh_retrieve(t, &keys[k][r]);
            vp_assert(d == (present[k] ? val[k] : NULL), "retrieve");
        }
    }
    check_all(t);
    vp_reach("end");
    hsh_destroy(t);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
