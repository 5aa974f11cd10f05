/* Two objects of one kind: what happens to one does not show in the other, whatever is done to either in between, also when one goes away and comes again. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
static int draws;
long vp_random(void) { return draws++ % 2 ? 0x7fffffff : 0; }   /* the levels are sl_* harnesses' subject */
#define K 3
static char *key[2][K] = { { "a", "b", "ab" }, { "x", "y", "a" } }, copy[2][K][4];
static char d[2][K][2];                                   /* what is stored with a key in either object */
static int in[2][K];
static int w, seen[K], stopAt, calls;
static void act(int o);
static int cb, rets[2], miss[2], stats;
static int inner, crowd, lists;
static int armed, other, spread, extra;                                  /* the next call of a hash or comparison function changes the other object first */
static void hook(void) { if (armed && !--armed) { int s = w, n = inner; inner = 1; act(other); inner = n; w = s; } }
static unsigned long one(const void *p) { hook(); return spread ? *(const unsigned char *)p : 7; }
static int textcmp(const void *a, const void *b) { hook(); return strcmp(a, b); }
static int ptrcmp(const void *a, const void *b) { hook(); return a != b; }
static int total(int o);
#define FIGURES(m, what) if (stats) { m##_Stats s = m##_get_stats(obj[o]); vp_assert(s->entries == (unsigned long)total(o) && s->retrievals == (unsigned long)rets[o] && s->misses == (unsigned long)miss[o] && s->hits <= s->retrievals - s->misses, what); xfree(s); }
#if MODE == 0                                             /* hash tables: by content, by pointer */
typedef hsh_HashTable T;
static T obj[2];
static T make(int o) { return o ? hsh_create(crowd ? one : hsh_pointer_hash, crowd ? ptrcmp : hsh_pointer_compare) : hsh_create(crowd ? one : NULL, crowd ? textcmp : NULL); }
static void gone(T t) { hsh_destroy(t); }
#define GROW(t, e) hsh_insert(t, e, e)
static void put(int o, int k) { int r = hsh_insert(obj[o], key[o][k], &d[o][k]); vp_assert(r == in[o][k], "inserted unless present"); in[o][k] = 1; }
static void take(int o, int k) { int r = hsh_delete(obj[o], key[o][k]); vp_assert(r == !in[o][k], "deleted if present"); in[o][k] = 0; }
static void look(int o, int k) { vp_assert(hsh_retrieve(obj[o], o ? key[o][k] : copy[o][k]) == (in[o][k] ? d[o][k] : NULL), "the datum of the key in this table"); rets[o]++; miss[o] += !in[o][k]; FIGURES(hsh, "this table's figures") }
static int each(const void *k, const void *p) { int i = (const char (*)[2])p - d[w]; vp_assert(i >= 0 && i < K && in[w][i] && !seen[i] && k == key[w][i], "each entry of this table once"); seen[i] = 1; calls++; if (inner) { int s = w; act(!w); w = s; } return calls == stopAt; }
static void walk(int o) { w = o; hsh_iterate(obj[o], each); }
#elif MODE == 1
typedef set_Set T;
static T obj[2];
static T make(int o) { return o ? set_create(crowd ? one : hsh_pointer_hash, crowd ? ptrcmp : hsh_pointer_compare) : set_create(crowd ? one : NULL, crowd ? textcmp : NULL); }
static void gone(T t) { set_destroy(t); }
#define GROW(t, e) set_insert(t, e)
static void put(int o, int k) { int r = set_insert(obj[o], key[o][k]); vp_assert(r == in[o][k], "inserted unless present"); in[o][k] = 1; }
static void take(int o, int k) { int r = set_delete(obj[o], key[o][k]); vp_assert(r == !in[o][k], "deleted if present"); in[o][k] = 0; }
static void look(int o, int k) { int i, n = 0; vp_assert(!set_member(obj[o], o ? key[o][k] : copy[o][k]) == !in[o][k], "member of this set"); for (n = extra, i = 0; i < K; i++) n += in[o][i]; vp_assert(set_count(obj[o]) == n, "count of this set"); rets[o]++; miss[o] += !in[o][k]; FIGURES(set, "this set's figures") }
static int each(const void *k) { int i; for (i = 0; i < K && key[w][i] != k; i++) ; vp_assert(i < K && in[w][i] && !seen[i], "each element of this set once"); seen[i] = 1; calls++; if (inner) { int s = w; act(!w); w = s; } return calls == stopAt; }
static void walk(int o) { w = o; set_iterate(obj[o], each); }
#elif MODE == 2                                           /* skip lists, ordered upwards and downwards */
typedef sl_List T;
static T obj[2];
static const void *kf(const void *p) { hook(); return p; }
static int up(const void *a, const void *b) { hook(); return (const char *)a < (const char *)b ? -1 : a > b; }
static int down(const void *a, const void *b) { return -up(a, b); }
static T make(int o) { return o ? sl_create(down, kf, NULL) : sl_create(up, kf, NULL); }
static void gone(T t) { sl_destroy(t); }
static void put(int o, int k) { if (!in[o][k]) sl_insert(obj[o], d[o][k]); in[o][k] = 1; }
static void take(int o, int k) { if (in[o][k]) sl_delete(obj[o], d[o][k]); in[o][k] = 0; }
static void look(int o, int k) { vp_assert(sl_find(obj[o], d[o][k]) == (in[o][k] ? d[o][k] : NULL), "found in this list"); vp_assert(sl_find(obj[o], d[!o][k]) == NULL, "not of the other list"); }
static const char *last;
static int each(const void *p) { int i = (const char (*)[2])p - d[w]; vp_assert(i >= 0 && i < K && in[w][i] && !seen[i], "each datum of this list once"); vp_assert(!last || (w ? up(p, last) : up(last, p)) < 0, "in this list's order"); last = p; seen[i] = 1; calls++; if (inner) { int s = w; const char *l = last; act(!w); w = s; last = l; } return calls == stopAt; }
static void walk(int o) { w = o; last = NULL; sl_iterate(obj[o], each); }
#elif MODE == 3                                           /* stacks and lists: the order is kept in q */
typedef void *T;
static T obj[2];
static void *q[2][16]; static int n[2];
static T make(int o) { n[o] = 0; return lists ? (T)lst_create() : (T)stk_create(); }
static void gone(T t) { if (lists) lst_destroy(t); else stk_destroy(t); }
static void put(int o, int k) { if (lists && k == 1) { memmove(&q[o][1], &q[o][0], n[o] * sizeof q[o][0]); q[o][0] = d[o][k]; lst_push(obj[o], d[o][k]); } else if (lists) { q[o][n[o]] = d[o][k]; lst_append(obj[o], d[o][k]); } else { q[o][n[o]] = d[o][k]; stk_push(obj[o], d[o][k]); } n[o]++; }
static void take(int o, int k) { void *want = NULL; (void)k; if (n[o]) { n[o]--; want = lists ? q[o][0] : q[o][n[o]]; if (lists) memmove(&q[o][0], &q[o][1], n[o] * sizeof q[o][0]); } vp_assert((lists ? lst_pop(obj[o]) : stk_pop(obj[o])) == want, "taken from this one"); }
static void look(int o, int k) { if (lists) { vp_assert(lst_length(obj[o]) == (unsigned)n[o], "length of this list"); vp_assert(lst_nth_get(obj[o], k + 1) == (k < n[o] ? q[o][k] : NULL), "element of this list"); } else { vp_assert(stk_isempty(obj[o]) == !n[o], "emptiness of this stack"); vp_assert(stk_top(obj[o]) == (n[o] ? q[o][n[o] - 1] : NULL), "top of this stack"); } }
static int each(const void *p) { vp_assert(p == q[w][calls], "elements of this list in order"); calls++; if (inner) { int s = w; act(!w); w = s; } return calls == stopAt; }
static void walk(int o) { w = o; if (lists) lst_iterate(obj[o], each); else calls = n[o]; }
#elif MODE == 4                                           /* object and string pools, argument lists */
typedef void *T;
static T obj[2];
static int kind, size1; static char *q[2][16], val[2][16], **vec[2]; static int n[2], c;
#define SIZE(o) ((o) ? size1 : 8)
static T make(int o) { n[o] = 0; vec[o] = NULL; return kind == 0 ? (T)mem_create_objects(SIZE(o)) : kind == 1 ? (T)mem_create_strings() : kind == 2 ? (T)str_pool_create() : (T)arg_create(); }
static void gone(T t) { if (kind == 0) mem_destroy_objects(t); else if (kind == 1) mem_destroy_strings(t); else if (kind == 2) str_pool_destroy(t); else arg_destroy(t); }
static void put(int o, int k)
{
    char b[3] = { 0 }; int i, l = kind == 0 ? SIZE(o) : 1 + k % 2; char *r; b[0] = 'a' + c; b[1] = l > 1 ? 'A' + k : 0; c++;
    if (kind == 2) { b[0] = 'a' + k; b[1] = 0; l = 1; r = (char *)str_pool_find(obj[o], b); for (i = 0; i < n[o]; i++) if (val[o][i] == b[0]) { vp_assert(q[o][i] == r, "one pointer for the content"); return; } }
    else if (kind == 0) { r = mem_get_object(obj[o]); memset(r, b[0], l); }
    else if (kind == 1) { if (k == 2) { mem_grow(obj[o], b, 1); r = (char *)mem_finish(obj[o]); } else r = (char *)mem_strcpy(obj[o], b); }
    else { if (k == 2) { arg_grow(obj[o], b, 1); arg_finish(obj[o]); } else arg_add(obj[o], b); vp_assert(arg_count(obj[o]) == n[o] + 1, "count of this list"); r = (char *)arg_get(obj[o], n[o]); }
    vec[o] = NULL; q[o][n[o]] = r; val[o][n[o]++] = b[0];
}
static void take(int o, int k) { (void)k; if (kind == 0 && n[o]) { mem_free_object(obj[o], q[o][--n[o]]); } }
static void look(int o, int k)
{
    int i; (void)k;
    for (i = 0; i < n[o]; i++) { vp_assert(q[o][i][0] == val[o][i] && (kind || q[o][i][SIZE(o) - 1] == val[o][i]), "the content stays"); if (kind == 3) vp_assert(arg_get(obj[o], i) == q[o][i] || arg_get(obj[o], i)[0] == val[o][i], "arguments of this list"); if (kind == 2) { char b[2] = { 0 }; b[0] = val[o][i]; vp_assert(str_pool_exists(obj[o], b), "interned here"); } }
    if (kind == 3) { int ac; char **av; if (vec[o]) { for (i = 0; i < n[o]; i++) vp_assert(vec[o][i][0] == val[o][i], "the vector stays while its list does"); vp_assert(!vec[o][n[o]], "and ends"); } arg_get_vector(obj[o], &ac, &av); vp_assert(ac == n[o] && !av[ac], "vector of this list"); vec[o] = av; }
    if (kind == 2) { char b[2] = { 0 }; int j, f; for (j = 0; j < K; j++) { b[0] = 'a' + j; for (f = i = 0; i < n[o]; i++) f |= val[o][i] == b[0]; vp_assert(!str_pool_exists(obj[o], b) == !f, "interned here or not"); } }
    if (kind == 0) { mem_ObjectStats s = mem_get_object_stats(obj[o]); vp_assert(s->used == n[o] && s->size == SIZE(o), "statistics of this pool"); xfree(s); }
    if (kind == 1) { mem_StringStats s = mem_get_string_stats(obj[o]); vp_assert(s->count == n[o], "statistics of this pool"); xfree(s); }
}
static void walk(int o) { (void)o; }
#endif
static int total(int o) { int i, s = 0;
#if MODE >= 3
    (void)i; return n[o];
#else
    for (i = 0; i < K; i++) s += in[o][i]; return s;
#endif
}
static void act(int o)
{
    int op = vp_choice(MODE == 4 || inner ? 4 : 5, "op"), k = op >= 3 ? 0 : vp_choice(op == 1 && MODE >= 3 ? 1 : K, "key");
    if (op < 3 && cb && !inner) { cb = 0; armed = 1 + vp_choice(vp_param("cb", 1), "call"); other = !o; }
    if (op == 0) put(o, k); else if (op == 1) take(o, k); else if (op == 2) look(o, k);
    else if (op == 3 && !inner) { gone(obj[o]); int i, again = vp_choice(2, "again"); memset(in[o], 0, sizeof in[o]); obj[o] = make(o); rets[o] = miss[o] = 0; for (i = 0; i < K; i++) look(o, i); if (again) { put(o, 2); put(o, 0); for (i = 0; i < K; i++) look(o, i); } }
    else {
        int m, s[K], i, c = calls, st = stopAt, deep = inner;
        for (i = 0; i < K; i++) { s[i] = seen[i]; seen[i] = 0; }
        calls = 0; inner = !deep; stopAt = vp_choice(2, "stop") ? 1 : 0; m = total(o);
        walk(o);
        inner = deep;
        vp_assert(calls == (stopAt && m ? MODE == 3 && !lists ? m : 1 : m), "the traversal is complete");
        for (i = 0; i < K; i++) seen[i] = s[i];
        calls = c; stopAt = st;
    }
}
void harness(void)
{
    int i, o, ops = vp_param("ops", 3); long live0 = vp_live();
    stats = vp_param("stats", 0);
    for (o = 0; o < 2; o++) for (i = 0; i < K; i++) strcpy(copy[o][i], key[o][i]);
    key[1][2] = key[0][0];                                 /* one pointer is a key of both */
#if MODE < 2
    spread = vp_param("cb", 0); crowd = spread || vp_choice(2, "crowd");
#elif MODE == 2
    if (vp_param("cb", 0)) draws = vp_choice(2, "draws");
#elif MODE == 3
    lists = vp_param("lists", 0);
#elif MODE == 4
    kind = vp_param("kind", 0); size1 = kind == 0 && vp_choice(2, "equal") ? 8 : 16;
#endif
    for (o = 0; o < 2; o++) obj[o] = make(o);
    put(0, MODE == 2); put(1, 2); put(1, 1);
    for (i = 0; i < ops; i++) { o = vp_choice(2, "object"); armed = 0; cb = vp_param("cb", 0) && !i; act(o); armed = 0; }
    for (o = 0; o < 2; o++) for (i = 0; i < K; i++) { look(o, i); look(!o, i); }
#if MODE < 2
    if (spread) {                                          /* both grow */
        static char more[34][2];
        for (i = 0; i < 34; i++) for (more[i][0] = i < 26 ? 'A' + i : '0' + i - 26, o = 0; o < 2; o++) GROW(obj[o], more[i]);
        extra = 34;
        for (o = 0; o < 2; o++) for (i = 0; i < K; i++) look(o, i);
    }
#endif
    o = vp_choice(2, "first"); gone(obj[o]);
    for (i = 0; i < K; i++) look(!o, i);
    put(!o, 1); look(!o, 1); gone(obj[!o]);
#if MODE == 2
    _sl_shutdown();
#elif MODE == 3
    if (lists) _lst_shutdown();
#endif
    vp_assert(vp_live() == live0, "everything is released");
    vp_reach("end");
}
