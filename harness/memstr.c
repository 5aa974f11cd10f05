/* String memory: copies are exact, stay where they are, and go away together. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
#ifndef MAXN
#define MAXN 24
#endif
static const char *p[MAXN]; static unsigned char want[MAXN][160]; static int len[MAXN], n;
void harness(void)
{
    int i, j, ops = vp_param("ops", 3), L = vp_param("len", 3), pre = vp_param("prefill", 0), bytes = 0;
    long live0 = vp_live();
    mem_String m = mem_create_strings(), m2 = mem_create_strings();
    const char *o = mem_strcpy(m2, "other");
    if (vp_param("long", 0)) {               /* long strings of each kind, among short ones */
        static char a[3][4300 + LX]; const char *r[6]; int l = a_length("len"), k = vp_choice(4, "how"), t; a_text(a[0], l, 0); a_text(a[1], 5, 1); a_text(a[2], l, 2);
        r[0] = mem_strcpy(m, a[1]);
        for (t = 0; t < 3; t++) {
            if (k == 0) r[1 + t] = mem_strcpy(m, a[t]); else if (k == 1) { int z = strlen(a[t]); char *e = xmalloc(z); memcpy(e, a[t], z); r[1 + t] = mem_strncpy(m, e, z); memset(e, 'Z', z); xfree(e); }
            else { int z = strlen(a[t]), c = k == 2 ? 1 : z - 1; mem_grow(m, a[t], c); mem_grow(m, a[t] + c, z - c); r[1 + t] = mem_finish(m); }
        }
        for (t = 0; t < 3; t++) vp_assert(!strcmp(r[1 + t], a[t]), "every string keeps its content, and is terminated");
        vp_assert(!strcmp(r[0], a[1]), "every string keeps its content"); { mem_StringStats st = mem_get_string_stats(m); vp_assert(st->count == 4 && st->bytes == 2 * (l + 1) + 12, "statistics"); xfree(st); }
        vp_reach("long");
    } else if (vp_param("grow", 0)) {               /* long strings grown from pieces of many lengths */
        static const int A[] = { 1, 15, 16, 31, 32, 33, 63, 64 }, B[] = { 0, 1, 15, 16, 17, 32 }; int a = A[vp_choice(8, "a")], b = B[vp_choice(6, "b")], c = B[vp_choice(6, "c")], rep = vp_choice(2, "more"); char *src = xmalloc(a + b + c + 1); unsigned char *w = want[0]; int l = 0;
        vp_bytes(src, 1, "first");
        for (j = 1; j < a + b + c; j++) src[j] = 'A' + j % 57;
        for (j = 0; j < 3; j++) { int k = j == 0 ? a : j == 1 ? b : c; char *e = xmalloc(k ? k : 1); memcpy(e, src + l, k); mem_grow(m, e, k); memset(e, 'Z', k); xfree(e); l += k; }
        memcpy(w, src, l); w[l] = 0; len[0] = l; p[0] = mem_finish(m); xfree(src);
        if (rep) { char *q = xmalloc(l + 1); memcpy(q, w, l); q[l] = 0; mem_grow(m, q, l); p[1] = mem_finish(m); memcpy(want[1], w, l + 1); len[1] = l; xfree(q); }
        for (j = 0; j <= rep; j++) { int k; for (k = 0; k <= l; k++) vp_assert((unsigned char)p[j][k] == want[j][k], "every string keeps its content, and is terminated"); }
        { mem_StringStats st = mem_get_string_stats(m); vp_assert(st->count == 1 + rep && st->bytes == (1 + rep) * (l + 1), "statistics"); xfree(st); }
        vp_reach("grown");
    } else for (i = 0; i < ops + pre; i++) {
        int op = i < pre ? 0 : vp_choice(3, "op"), l = i < pre ? 2 : vp_choice(L + 1, "len");
        char *src = xmalloc(l + 1 + (op == 2 ? 8 : 0));          /* exact size: reading past it is an error */
        if (i < pre) { src[0] = 'a' + i % 26; src[1] = 'A' + i / 26; }
        else vp_bytes(src, l, "byte");
        if (op == 0) for (j = 0; j < l; j++) vp_assume(src[j] != 0);
        memcpy(want[n], src, l); want[n][l] = 0; len[n] = l;
        if (op == 0) { src[l] = 0; p[n] = mem_strcpy(m, src); }
        else if (op == 1) { char *e = xmalloc(l ? l : 1); memcpy(e, src, l); p[n] = mem_strncpy(m, e, l); xfree(e); }
        else {
            int cut1 = vp_choice(l + 1, "cut1"), cut2 = cut1 + vp_choice(l - cut1 + 1, "cut2"), pieces = vp_choice(3, "pieces");
            if (pieces == 0) { cut1 = cut2 = l; mem_grow(m, src, l); }
            else if (pieces == 1) { char *e = xmalloc(cut1 + 1); memcpy(e, src, cut1); e[cut1] = 'x'; mem_grow(m, e, cut1); xfree(e); mem_grow(m, src + cut1, l - cut1); }
            else { mem_grow(m, src, cut1); mem_grow(m, src + cut1, cut2 - cut1); mem_grow(m, src + cut2, l - cut2); }
            p[n] = mem_finish(m);
        }
        memset(src, 'Z', l); xfree(src);                          /* the copy does not depend on the source */
        vp_assert(p[n] != NULL, "a copy");
        bytes += l + 1; n++;
        if (i + 1 < pre) continue;
        for (j = 0; j < n; j++) { int k; for (k = 0; k <= len[j]; k++) vp_assert((unsigned char)p[j][k] == want[j][k], "every string keeps its content, and is terminated"); }
        for (j = 0; j < n - 1; j++) vp_assert(p[j] + len[j] + 1 <= p[n - 1] || p[n - 1] + len[n - 1] + 1 <= p[j], "strings do not overlap");
        { mem_StringStats st = mem_get_string_stats(m); vp_assert(st->count == n, "count of strings"); vp_assert(st->bytes == bytes, "bytes used"); xfree(st); }
    }
    vp_assert(!strcmp(o, "other"), "pools are independent");
    vp_reach("end");
    mem_destroy_strings(m);
    vp_assert(!strcmp(o, "other"), "pools are independent after destroy");
    mem_destroy_strings(m2);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
