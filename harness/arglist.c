/* Argument lists: a NULL-terminated vector of private copies. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#ifndef MAXN
#define MAXN 48
#endif
static char want[MAXN][8]; static int n;
void harness(void)
{
    int i, j, ops = vp_param("ops", 3), L = vp_param("len", 2), pre = vp_param("prefill", 0), argc; char **argv;
    long live0 = vp_live();
    arg_List a = arg_create(), b = arg_create();
    arg_add(b, "other");
    vp_assert(arg_count(a) == 0, "a new list is empty");
    arg_get_vector(a, &argc, &argv); vp_assert(argc == 0 && argv[0] == NULL, "vector of a new list");
    for (i = 0; i < pre + ops; i++) {
        int op = i < pre ? i % 3 : vp_choice(3, "op"), l = i < pre ? 1 : vp_choice(L + 1, "len");
        char *s = xmalloc(l + 1);
        if (i < pre) s[0] = 'A' + i % 100; else vp_bytes(s, l, "c");
        for (j = 0; j < l; j++) vp_assume(s[j] != 0);
        s[l] = 0; strcpy(want[n], s);
        if (op == 0) vp_assert(arg_add(a, s) == a, "returns the list");
        else if (op == 1) { int k = i < pre ? l : vp_choice(l + 1, "k"); char *e = xmalloc(k ? k : 1); memcpy(e, s, k); want[n][k] = 0; vp_assert(arg_addn(a, e, k) == a, "returns the list"); memset(e, 'Q', k); xfree(e); }
        else { int k = i < pre ? 0 : vp_choice(l + 1, "cut"); arg_grow(a, s, k); arg_grow(a, s + k, l - k); vp_assert(arg_finish(a) == a, "returns the list"); }
        memset(s, 'Q', l); xfree(s); n++;
        vp_assert(arg_count(a) == n, "count");
        if (i + 1 < pre) continue;
        arg_get_vector(a, &argc, &argv);
        vp_assert(argc == n && argv[n] == NULL, "the vector is terminated by NULL");
        for (j = 0; j < n; j++) { vp_assert(!strcmp(arg_get(a, j), want[j]), "items in order, each a private copy"); vp_assert(argv[j] == arg_get(a, j), "vector and items agree"); }
    }
    vp_assert(arg_count(b) == 1 && !strcmp(arg_get(b, 0), "other"), "lists are independent");
    for (i = 0; i < n; i++) if (argv[i][0]) {       /* programs write into their arguments */
        argv[i][0] = '\1'; want[i][0] = '\1';
        for (j = 0; j < n; j++) vp_assert(!strcmp(argv[j], want[j]), "every argument has storage of its own");
    }
    vp_reach("end");
    arg_destroy(a);
    vp_assert(!strcmp(arg_get(b, 0), "other"), "lists are independent after destroy");
    arg_destroy(b);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
