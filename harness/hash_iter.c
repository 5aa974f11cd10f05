/* Traversal of a hash table: complete, without repetition, stoppable, and safe when
   the visited entry is deleted. */
#include "maa.h"
#include "vp.h"
#include "cmpval.h"
#include "few.h"
#include <string.h>
#ifndef MAXK
#define MAXK 64
#endif
struct key { int cls; };
static struct key *keys[MAXK];
static unsigned long hv[MAXK];
static int data[MAXK];
#define DAT(i) ((i) % 3 == 1 ? NULL : &data[i])       /* some keys have no datum */
static int seen[MAXK], cnt, stopAt, retv, nkeys, delMask, freeKeys;
static void *argv_expected;
static hsh_HashTable T; static int spoilKeys;
static int gone[MAXK], look = -1, nest, nested;

static unsigned long h(const void *k) { vp_assert(((const struct key*)k)->cls >= 0, "a key is not looked at after it was delivered"); return hv[((const struct key*)k)->cls]; }
static int cmp(const void *a, const void *b) { vp_assert(((const struct key*)a)->cls >= 0 && ((const struct key*)b)->cls >= 0, "a key is not looked at after it was delivered"); return unequal(((const struct key*)a)->cls, ((const struct key*)b)->cls); }
static int count(const void *k, const void *d) { (void)k; (void)d; nested++; return 0; }
static int counta(const void *k, const void *d, void *a) { vp_assert(a == &nested, "argument passed through"); return count(k, d); }
static int stopper(const void *k, const void *d) { (void)k; (void)d; return 1; }
/* a traversal inside the traversal, to its end */
static void inner(void)
{
    hsh_Position p; void *k, *d; int i, n = 0;
    for (i = 0; i < nkeys; i++) n += !gone[i];
    nested = 0;
    if (nest == 1) HSH_ITERATE(T, p, k, d) nested++;
    else if (nest == 2) vp_assert(hsh_iterate(T, count) == 0, "full");
    else if (nest == 3) vp_assert(hsh_iterate_arg(T, counta, &nested) == 0, "full");
    else { vp_assert(n == 0 || hsh_iterate(T, stopper) != 0, "stopped"); nested = n; }
    vp_assert(nested == n, "a traversal inside another one delivers everything");
}
static int visit(const void *k, const void *d)
{
    int c = ((const struct key*)k)->cls;
    vp_assert(!gone[c], "deleted keys are not delivered");
    vp_assert(!seen[c], "a key is delivered once");
    vp_assert(d == DAT(c), "the datum belongs to the key");
    seen[c] = 1;
    if (c < 31 && (delMask >> c & 1)) { vp_assert(hsh_delete(T, k) == 0, "delete of the visited key"); gone[c] = 1; }
    if (nest) inner();
    if (look >= 0) vp_assert(hsh_retrieve(T, keys[look]) == (gone[look] ? NULL : DAT(look)), "lookup while iterating");
    if (spoilKeys) keys[c]->cls = -1;
    if (freeKeys) { xfree(keys[c]); keys[c] = NULL; }
    return ++cnt == stopAt ? retv : 0;
}
static int it(const void *k, const void *d) { return visit(k, d); }
static int ita(const void *k, const void *d, void *a) { vp_assert(a == argv_expected, "argument passed through"); return visit(k, d); }

void harness(void)
{
    int i, n = 0, pre = vp_param("prefill", 0), m = vp_param("keys", 3), mode = vp_param("mode", 0), del = vp_param("del", 0), spread = vp_param("spread", 7);
    long live0 = vp_live();
    hsh_HashTable t = T = hsh_create(h, cmp);
    int arg;
    nkeys = pre + m;
    argv_expected = &arg;
    for (i = 0; i < nkeys; i++) {
        keys[i] = xmalloc(sizeof(struct key)); keys[i]->cls = i;
        hv[i] = i < pre ? (unsigned long)i * spread + 1 : vp_param("base", 0) + vp_sym(vp_param("bits", 5), "hash");
        vp_assert(hsh_insert(t, keys[i], DAT(i)) == 0, "insert");
        n++;
    }
    if (mode == 0 || mode == 1) {            /* callbacks: any stopping point, any set of deletions of the current entry */
        int r, want;
        if (vp_param("look", 0)) look = few(nkeys, "look");
        if (vp_param("nest", 0)) nest = vp_choice(5, "nest");
        stopAt = few(nkeys + 2, "stopAt");
        retv = yes(vp_conc(vp_range(0, 3, "retv")));
        if (del) { delMask = 0; for (i = pre; i < nkeys; i++) delMask |= vp_choice(2, "del") << i; if (pre) delMask |= vp_choice(2, "delpre") ? (1 << pre) - 1 : 0; }
        r = mode ? hsh_iterate_arg(t, ita, &arg) : hsh_iterate(t, it);
        want = stopAt >= 1 && stopAt <= nkeys ? stopAt : nkeys;
        vp_assert(cnt == want, "visits everything, or exactly up to the stop");
        vp_assert((r != 0) == (stopAt >= 1 && stopAt <= nkeys), "result tells whether it was stopped");
        for (i = 0; i < nkeys; i++) vp_assert(hsh_retrieve(t, keys[i]) == (gone[i] ? NULL : DAT(i)), "entries not deleted remain");
    } else if (mode == 2) {                  /* release the keys while iterating, then destroy */
        freeKeys = 1;
        vp_assert(hsh_iterate(t, it) == 0, "full");
        vp_assert(cnt == nkeys, "all visited");
    } else if (mode >= 5) {                  /* positions, the caller reuses or releases each key it was given */
        hsh_Position p; void *k, *d; int stop = few(nkeys + 1, "break");
        if (mode & 1) spoilKeys = 1; else freeKeys = 1;
        if (mode <= 6) { HSH_ITERATE(t, p, k, d) { visit(k, d); if (cnt == stop) break; } }
        else { HSH_ITERATE_KEYS(t, p, k) { int c = ((struct key*)k)->cls; visit(k, DAT(c)); if (cnt == stop) break; } }
        vp_assert(cnt == (stop ? stop : nkeys), "position iteration visits everything");
        if (stop) HSH_ITERATE_END(t);
        vp_assert(hsh_readonly(t, 0) == 0, "table is writable after the iteration");
    } else {                                 /* positions */
        hsh_Position p; void *k, *d; int stop = few(nkeys + 1, "break"), look = few(nkeys, "look");
        if (vp_param("nest", 0)) nest = vp_choice(5, "nest");
        if (mode == 3) {
            HSH_ITERATE(t, p, k, d) {
                visit(k, d);
                vp_assert(hsh_retrieve(t, keys[look]) == DAT(look), "lookup while iterating");
                if (cnt == stop) break;
            }
        } else {
            HSH_ITERATE_KEYS(t, p, k) {
                int c = ((struct key*)k)->cls;
                vp_assert(!seen[c], "key delivered once"); seen[c] = 1; cnt++;
                if (cnt == stop) break;
            }
        }
        vp_assert(cnt == (stop ? stop : nkeys), "position iteration visits everything");
        if (stop) HSH_ITERATE_END(t);
        vp_assert(hsh_readonly(t, 0) == 0, "table is writable after the iteration");
        vp_assert(hsh_delete(t, keys[look]) == 0, "delete after the iteration");
        vp_assert(hsh_insert(t, keys[look], DAT(look)) == 0, "insert after the iteration");
    }
    vp_reach("end");
    hsh_destroy(t);
    for (i = 0; i < nkeys; i++) if (keys[i]) xfree(keys[i]);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
