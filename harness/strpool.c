/* String pools intern: one pointer per content. */
#include "maa.h"
#include "vp.h"
#include "few.h"
#include <string.h>
#include "lens.h"
#ifndef MAXN
#define MAXN 24
#endif
static const char *in[MAXN]; static int n;            /* interned pointers, pairwise different content */
static const char *cp[MAXN]; static char cpw[MAXN][8]; static int nc;
static int seen[MAXN], cnt, stopAt, G; static str_Pool P; static void *xarg;
static int find(const char *s) { int i; for (i = 0; i < n; i++) if (!strcmp(in[i], s)) return i; return -1; }
static int vis(const char *s)
{
    int i; for (i = 0; i < n; i++) if (in[i] == s) break;
    vp_assert(i < n, "iteration delivers interned strings"); vp_assert(!seen[i], "each once"); seen[i] = 1; cnt++;
    return cnt == stopAt;
}
static int visa(const char *s, void *a) { vp_assert(a == xarg, "argument passed through"); return vis(s); }
static void note(const char *s, const char *r)
{
    int k = find(s);
    vp_assert(r != NULL && !strcmp(r, s), "the pointer returned has the content asked for");
    vp_assert(r != s, "the content is copied into the pool");
    if (k >= 0) vp_assert(r == in[k], "equal strings get the same pointer");
    else { int i; for (i = 0; i < n; i++) vp_assert(r != in[i], "different strings get different pointers"); in[n++] = r; }
}
void harness(void)
{
    int i, j, ops = vp_param("ops", 3), L = vp_param("len", 2), pre = vp_param("prefill", 0), kinds = vp_param("kinds", 8);
    long live0 = vp_live();
    G = vp_param("global", 0);
    if (!G) P = str_pool_create();
    for (i = 0; i < pre; i++) { char b[4] = { 'p', 'a' + i % 24, i < 24 ? 0 : '0' + i / 24, 0 }; note(b, G ? str_find(b) : str_pool_find(P, b)); }
    if (vp_param("long", 0)) {               /* long strings, equal or different at one place */
        static char a[4300 + LX], b[4300 + LX]; int l = a_length("len"), d = vp_choice(5, "differ"), k; const char *r, *q;
        a_text(a, l, 0); strcpy(b, a); if (d == 0) b[l - 1] ^= 1; else if (d == 1) b[l / 2] ^= 1; else if (d == 2) strcat(b, "x"); else if (d == 3) b[0] ^= 1;
        note(a, G ? str_find(a) : str_pool_find(P, a));
        vp_assert((G ? str_exists(b) : str_pool_exists(P, b)) == (d == 4), "exists exactly when interned");
        switch (vp_choice(4, "how")) {
        case 0: note(b, G ? str_find(b) : str_pool_find(P, b)); break;
        case 1: k = l / 3; if (G) { str_grow(b, k); str_grow(b + k, strlen(b) - k); note(b, str_finish()); } else { str_pool_grow(P, b, k); str_pool_grow(P, b + k, strlen(b) - k); note(b, str_pool_finish(P)); } break;
        case 2: r = G ? str_copy(b) : str_pool_copy(P, b); q = G ? str_copyn(b, l - 1) : str_pool_copyn(P, b, l - 1); vp_assert(!strcmp(r, b) && !strncmp(q, b, l - 1) && !q[l - 1] && r != in[0] && q != in[0] && q != r, "copies"); note(b, G ? str_find(b) : str_pool_find(P, b)); vp_assert(!strcmp(r, b), "the copy stays"); break;
        case 3: if (G) { b[l - 1] = 0; k = strlen(b); r = str_unique(b); vp_assert(!strncmp(r, b, k) && strcmp(r, a) && strlen(r) > (size_t)k && strlen(r) < (size_t)k + 12, "unique string starts with the prefix"); strcpy(b, r); note(b, str_find(b)); q = str_unique("p"); vp_assert(q[0] == 'p', "unique"); } break;
        }
        vp_reach("long");
    }
    if (vp_param("uniques", 0)) {            /* many unique strings, two prefixes, some of them interned before */
        static char u[2][16]; int c0; for (j = 9; j < vp_param("uniques", 0); j += 90) { sprintf(u[0], "p%d", j + 2); str_find(u[0]); }
        { str_Stats st = str_get_stats(); c0 = st->count; xfree(st); }
        for (j = 0; j < vp_param("uniques", 0); j++) { const char *r; u[0][0] = j % 3 ? 'p' : 'q'; u[0][1] = 0; r = str_unique(u[0]); vp_assert(r[0] == u[0][0] && strlen(r) < 14, "unique string starts with the prefix"); strcpy(u[1], r); str_find(u[1]); }
        { str_Stats st = str_get_stats(); vp_assert(st->count == c0 + vp_param("uniques", 0), "every unique string is new"); xfree(st); } str_destroy(); n = 0;
    }
    if (vp_param("uniq", 0)) {               /* unique strings among neighbours interned before */
        static const char *const nb[] = { "p1", "p2", "p3", "p4", "p", "p0", "p10", "q1" }; const char *u[8];
        for (i = 0; i < vp_param("uniq", 0); i++) if (vp_choice(2, "interned")) note(nb[i], str_find(nb[i]));
        for (i = 0; i < 3; i++) {
            u[i] = str_unique("p");
            vp_assert(u[i][0] == 'p' && strlen(u[i]) < 16, "unique string starts with the prefix");
            for (j = 0; j < n; j++) vp_assert(strcmp(u[i], in[j]), "unique string is new");
            { char t[16]; strcpy(t, u[i]); note(t, u[i]); }
            if (i < 2) { j = vp_choice(9, "between"); if (j < 8 && find(nb[j]) < 0) note(nb[j], str_find(nb[j])); else if (j == 8) { char q[16]; strcpy(q, str_unique("q")); vp_assert(q[0] == 'q' && find(q) < 0, "unique string is new"); note(q, str_find(q)); } }
        }
    }
    for (i = 0; i < ops; i++) {
        char b[12]; int op = vp_choice(kinds, "op"), l = vp_choice(L + 1, "len"); const char *r;
        memset(b, 0, sizeof b);
        for (j = 0; j < l; j++) b[j] = "a\xe9""1"[vp_choice(vp_param("alpha", 3), "s")];   /* hashed: one path per content */
        switch (op) {
        case 0: note(b, G ? str_find(b) : str_pool_find(P, b)); break;
        case 1: vp_assert(((G ? str_exists(b) : str_pool_exists(P, b)) != 0) == (find(b) >= 0), "exists exactly when interned"); break;
        case 2: r = G ? str_copy(b) : str_pool_copy(P, b);
                vp_assert(!strcmp(r, b), "copy has the content");
                for (j = 0; j < n; j++) vp_assert(r != in[j], "copy is a new string");
                for (j = 0; j < nc; j++) vp_assert(r != cp[j], "copy is a new string");
                cp[nc] = r; strcpy(cpw[nc++], b); break;
        case 3: { int k = vp_choice(l + 1, "n"); char t[12]; memcpy(t, b, k); t[k] = 0;
                r = G ? str_copyn(b, k) : str_pool_copyn(P, b, k);
                vp_assert(!strcmp(r, t), "copy of n bytes"); cp[nc] = r; strcpy(cpw[nc++], t); } break;
        case 4: { int k = vp_choice(l + 1, "cut");
                if (G) { str_grow(b, k); str_grow(b + k, l - k); note(b, str_finish()); }
                else { str_pool_grow(P, b, k); str_pool_grow(P, b + k, l - k); note(b, str_pool_finish(P)); } } break;
        case 5: if (G) { int k = vp_choice(l + 1, "n"); char t[12]; memcpy(t, b, k); t[k] = 0; note(t, str_findn(b, k)); }
                else { str_Position p; const char *key = 0; stopAt = few(n + 1, "stop"); memset(seen, 0, sizeof seen); cnt = 0;
                       STR_ITERATE(P, p, key) { j = vis(key); vp_assert(str_pool_find(P, n ? in[(cnt * 7) % n] : key) && str_pool_exists(P, key), "lookups go on meanwhile"); if (j) break; }
                       if (stopAt || vp_choice(2, "end")) STR_ITERATE_END(P);
                       vp_assert(cnt == (stopAt ? stopAt : n), "positions visit every interned string");
                       vp_assert(!str_pool_readonly(P, 1) && str_pool_readonly(P, 0), "the mark is set by hand and taken back");
                       if (n + 1 < MAXN && n < 20) note("~~", str_pool_find(P, "~~")); }
                break;
        case 6: if (G) { r = str_unique(b); vp_assert(!strncmp(r, b, l), "unique string starts with the prefix"); for (j = 0; j < n; j++) vp_assert(strcmp(r, in[j]), "unique string is new"); { char t[16]; vp_assert(strlen(r) < 16, "short"); strcpy(t, r); note(t, r); } }
                else { stopAt = few(n + 1, "stop"); memset(seen, 0, sizeof seen); cnt = 0;
                       j = str_pool_iterate(P, vis);
                       vp_assert(cnt == (stopAt ? stopAt : n) && (j != 0) == (stopAt != 0), "iteration is complete or stops where told"); }
                break;
        case 7: if (G) { str_destroy(); n = nc = 0; }
                else { stopAt = few(n + 1, "stop"); memset(seen, 0, sizeof seen); cnt = 0; xarg = &j;
                       j = str_pool_iterate_arg(P, visa, &j);
                       vp_assert(cnt == (stopAt ? stopAt : n) && (j != 0) == (stopAt != 0), "iteration is complete or stops where told"); }
                break;
        }
    }
    for (i = 0; i < nc; i++) vp_assert(!strcmp(cp[i], cpw[i]), "copies keep their content");
    for (i = 0; i < n; i++) { vp_assert((G ? str_find(in[i]) : str_pool_find(P, in[i])) == in[i], "interned strings stay"); vp_assert(G ? str_exists(in[i]) : str_pool_exists(P, in[i]), "and exist"); }
    vp_reach("end");
    if (G) str_destroy(); else str_pool_destroy(P);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
