/* More than 65536 elements in every container: no count, index or position may be narrower than its type promises. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define N 66000
long vp_random(void) { return 0; }
static char cell[N + 1]; static char seen[N + 1]; static int next, stopAt; static void *xarg;
static int cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static const void *kf(const void *d) { return d; }
static int mark(const void *p) { long i = (const char *)p - cell; vp_assert(i >= 0 && i < N && !seen[i], "every element delivered once"); seen[i] = 1; return ++next == stopAt ? 7 : 0; }
static int markk(const void *k, const void *d) { vp_assert(k == d, "key with its datum"); return mark(k); }
static int marka(const void *p, void *a) { vp_assert(a == xarg, "argument passed through"); return mark(p); }
static int inorder(const void *d) { vp_assert(d == &cell[next], "in order"); return ++next == stopAt ? 7 : 0; }
static int ordera(const void *d, void *a) { vp_assert(a == xarg, "argument passed through"); return inorder(d); }
static int evenorder(const void *d) { vp_assert(d == &cell[next], "in order"); next += 2; return 0; }
static const int EDGE[] = { 0, 1, 255, 256, 65535, 65536, N - 1 };
#define NEDGE 7
static void numeral(char *b, unsigned v) { int i; for (i = 0; i < 5; i++, v /= 10) b[i] = '0' + v % 10; b[5] = 0; }
void harness(void)
{
    int i, e; long live0 = vp_live(); char b[8];
#if MODE == 0
    {
        hsh_HashTable t = hsh_create(hsh_pointer_hash, hsh_pointer_compare); hsh_Stats s; int n; static const int S[] = { 0, 1, 65536, 65537, N };
        for (i = 0; i < N; i++) { n = hsh_insert(t, &cell[i], &cell[i]); vp_assert(n == 0, "a new key is inserted"); }
        e = EDGE[vp_choice(NEDGE, "edge")];
        vp_assert(hsh_insert(t, &cell[e], t) == 1, "a key in the table is refused");
        for (i = 0; i < N; i++) vp_assert(hsh_retrieve(t, &cell[i]) == &cell[i], "datum of a key");
        vp_assert(hsh_retrieve(t, &cell[N]) == NULL, "no datum of another");
        s = hsh_get_stats(t); vp_assert(s->entries == N, "number of entries"); vp_assert(s->retrievals == N + 1, "number of retrievals"); xfree(s);
        stopAt = S[vp_choice(5, "stop")];
        n = hsh_iterate(t, markk); vp_assert(!n == !stopAt, "what the callback returned"); vp_assert(next == (stopAt ? stopAt : N), "every entry up to the stop");
        for (i = 0; i < N; i += 2) { n = hsh_delete(t, &cell[i]); vp_assert(n == 0, "a key in the table is deleted"); }
        vp_assert(hsh_delete(t, &cell[e & ~1]) == 1, "a key no longer there");
        for (i = 0; i < N; i++) vp_assert(hsh_retrieve(t, &cell[i]) == (i & 1 ? &cell[i] : NULL), "what is left");
        s = hsh_get_stats(t); vp_assert(s->entries == N / 2, "number of entries left"); xfree(s);
        hsh_destroy(t); vp_reach("hash");
    }
#elif MODE == 1
    {
        set_Set s = set_create(hsh_pointer_hash, hsh_pointer_compare), u, v; set_Position p; int n; static const int S[] = { 0, 256, 1, 65537, 65536, N, 0 }; void *q;
        for (i = 0; i < N; i++) { n = set_insert(s, &cell[i]); vp_assert(n == 0, "a new element"); }
        e = vp_choice(NEDGE, "edge"); stopAt = S[e]; e = EDGE[e];
        vp_assert(set_insert(s, &cell[e]) == 1, "a member is refused"); vp_assert(set_count(s) == N, "count");
        for (i = 0; i < N; i++) vp_assert(set_member(s, &cell[i]), "a member"); vp_assert(!set_member(s, &cell[N]), "not a member");
        xarg = s;
        n = set_iterate_arg(s, marka, s); vp_assert(!n == !stopAt && next == (stopAt ? stopAt : N), "every element up to the stop");
        n = 0; SET_ITERATE(s, p, q) n++; SET_ITERATE_END(s); vp_assert(n == N, "positions reach every element");
        u = set_union(s, s); vp_assert(set_count(u) == N && set_equal(s, u), "a copy is equal");
        set_delete(u, &cell[e]); vp_assert(!set_equal(s, u) && set_count(u) == N - 1, "and then not");
        v = set_diff(s, u); vp_assert(set_count(v) == 1 && set_member(v, &cell[e]), "difference"); set_destroy(v);
        v = set_inter(s, u); vp_assert(set_count(v) == N - 1 && !set_member(v, &cell[e]) && set_equal(u, v), "intersection"); set_destroy(v);
        v = set_union(u, s); vp_assert(set_count(v) == N && set_equal(v, s), "union"); set_destroy(v);
        for (i = 0; i < N; i += 2) set_delete(s, &cell[i]);
        vp_assert(set_count(s) == N / 2, "count after deletions"); for (i = 0; i < N; i++) vp_assert(!set_member(s, &cell[i]) == !(i & 1), "what is left");
        set_destroy(s); set_destroy(u); vp_reach("set");
    }
#elif MODE == 2
    {
        lst_List l = lst_create(); static const int S[] = { 0, 1, 65536, 65537, N }; int n, k; lst_Position p;
        for (i = N / 2; i < N; i++) lst_append(l, &cell[i]); for (i = N / 2 - 1; i >= 0; i--) lst_push(l, &cell[i]);
        vp_assert(lst_length(l) == N, "length"); stopAt = S[vp_choice(5, "stop")]; e = EDGE[vp_choice(NEDGE, "edge")];
        xarg = l; n = lst_iterate_arg(l, ordera, l); vp_assert(!n == !stopAt && next == (stopAt ? stopAt : N), "every element up to the stop");
        vp_assert(lst_nth_get(l, e + 1) == &cell[e], "the nth"); p = lst_nth_position(l, e + 1); vp_assert(lst_get_position(p) == &cell[e], "the nth position");
        vp_assert(lst_member(l, &cell[e]) && !lst_member(l, &cell[N]), "membership"); vp_assert(lst_get_position(lst_last_position(l)) == &cell[N - 1], "the last");
        lst_nth_set(l, e + 1, &seen[0]); vp_assert(lst_nth_get(l, e + 1) == &seen[0], "the nth set"); lst_nth_set(l, e + 1, &cell[e]);
        if (vp_choice(2, "by")) lst_truncate_position(l, p), k = e + 1; else lst_truncate(l, k = e);
        vp_assert((int)lst_length(l) == k, "length after truncation");
        lst_append(l, &cell[k]); for (i = 0; i <= k; i++) vp_assert(lst_pop(l) == &cell[i], "elements in order"); vp_assert(lst_length(l) == 0 && !lst_pop(l), "empty");
        lst_destroy(l); _lst_shutdown(); vp_reach("list");
    }
#elif MODE == 3
    {
        stk_Stack s = stk_create(); int k = EDGE[vp_choice(NEDGE, "edge")] + 1;
        for (i = 0; i < k; i++) stk_push(s, &cell[i]);
        for (i = k; i < N; i++) { stk_push(s, &cell[i]); vp_assert(!stk_isempty(s), "not empty"); vp_assert(stk_pop(s) == &cell[i], "last in first out"); }
        for (i = k - 1; i >= 0; i--) { vp_assert(!stk_isempty(s) && stk_top(s) == &cell[i], "top"); vp_assert(stk_pop(s) == &cell[i], "last in first out"); }
        vp_assert(stk_isempty(s) && !stk_pop(s), "empty"); stk_destroy(s); vp_reach("stack");
    }
#elif MODE == 4
    {
        static int *o[N]; int size = sizeof(int) << vp_choice(3, "size"); mem_Object m = mem_create_objects(size); mem_ObjectStats s;
        for (i = 0; i < N; i++) { o[i] = mem_get_object(m); o[i][0] = i; o[i][size / sizeof(int) - 1] = i; }
        for (i = 0; i < N; i++) vp_assert(o[i][0] == i && o[i][size / sizeof(int) - 1] == i, "objects do not overlap");
        s = mem_get_object_stats(m); vp_assert(s->total == N && s->used == N && s->reused == 0 && s->size == size, "all used"); xfree(s);
        for (i = 1; i < N; i += 2) mem_free_object(m, o[i]);
        s = mem_get_object_stats(m); vp_assert(s->total == N && s->used == N / 2, "half used"); xfree(s);
        for (i = 1; i < N; i += 2) { int j; o[i] = mem_get_empty_object(m); for (j = 0; j < size / (int)sizeof(int); j++) vp_assert(o[i][j] == 0, "cleared"); o[i][0] = i; }
        for (i = 0; i < N; i++) vp_assert(o[i][0] == i, "objects do not overlap, again");
        s = mem_get_object_stats(m); vp_assert(s->total == N && s->used == N && s->reused == N / 2, "the freed are used again"); xfree(s);
        mem_destroy_objects(m); vp_reach("objects");
    }
#elif MODE == 5
    {
        static const char *o[N]; mem_String m = mem_create_strings(); mem_StringStats s; e = EDGE[vp_choice(NEDGE, "edge")];
        for (i = 0; i < N; i++) {
            numeral(b, i); if (i % 3 == 0) o[i] = mem_strcpy(m, b); else if (i % 3 == 1) o[i] = mem_strncpy(m, b, 5); else { mem_grow(m, b, 2); mem_grow(m, b + 2, 3); o[i] = mem_finish(m); }
        }
        for (i = 0; i < N; i++) { numeral(b, i); vp_assert(!strcmp(o[i], b), "the strings stay"); }
        s = mem_get_string_stats(m); vp_assert(s->count == N && s->bytes == 6 * N, "strings and bytes"); xfree(s);
        for (i = 0; i < e; i++) mem_grow(m, "xyz", 1); { const char *g = mem_finish(m); vp_assert((int)strlen(g) == e && (!e || g[e - 1] == 'x'), "grown in many steps"); }
        mem_destroy_strings(m); vp_reach("strings");
    }
#elif MODE == 6
    {
        static const char *o[N]; str_Pool m = str_pool_create(); str_Stats s; str_Position p; char *q; int n = 0;
        for (i = 0; i < N; i++) { numeral(b, i); o[i] = str_pool_find(m, b); }
        e = EDGE[vp_choice(NEDGE, "edge")]; numeral(b, e); vp_assert(str_pool_exists(m, b) && !str_pool_exists(m, "00x"), "exists");
        for (i = 0; i < N; i++) { numeral(b, i); vp_assert(!strcmp(o[i], b), "the strings stay"); vp_assert(str_pool_find(m, b) == o[i], "one pointer for the content"); }
        s = str_pool_get_stats(m); vp_assert(s->count == N && s->bytes == 6 * N, "strings and bytes"); xfree(s);
        STR_ITERATE(m, p, q) { int j, k, v = 0; (void)q; for (j = 0, k = 1; j < 5; j++, k *= 10) v += (q[j] - '0') * k; vp_assert(v < N && o[v] == q && !seen[v], "every string once"); seen[v] = 1; ++n; } STR_ITERATE_END(m); vp_assert(n == N, "every string");
        str_pool_destroy(m); vp_reach("pool");
    }
#elif MODE == 7
    {
        arg_List a = arg_create(); int n; char **v;
        for (i = 0; i < N; i++) { numeral(b, i); if (i & 1) arg_add(a, b); else arg_addn(a, b, 5); }
        vp_assert(arg_count(a) == N, "count"); arg_get_vector(a, &n, &v); vp_assert(n == N && !v[N], "vector ends");
        for (i = 0; i < N; i++) { numeral(b, i); vp_assert(!strcmp(v[i], b), "vector"); vp_assert(v[i] == arg_get(a, i), "argument"); }
        e = EDGE[vp_choice(NEDGE, "edge")]; for (i = 0; i < e; i++) arg_grow(a, "q", 1); arg_finish(a); vp_assert(arg_count(a) == N + 1 && (int)strlen(arg_get(a, N)) == e, "grown");
        arg_destroy(a); vp_reach("args");
    }
#elif MODE == 8
    {
        int k = EDGE[vp_choice(NEDGE, "edge")]; src_Type t[NEDGE], s; int m = 0; src_Stats st;
        src_new_file("f"); src_new_line(k);
        for (i = 0; i < N; i++) {
            numeral(b, i); b[5] = '\n'; src_line(b, 6); s = src_get(1); if (m < NEDGE && EDGE[m] == i) t[m++] = s;
            if (i % 4096 == 0) { vp_assert(src_linenumber(s) == k + i + 1, "line of a token"); vp_assert(src_offset(s) == 0 && src_length(s) == 1, "place of a token"); }
        }
        for (i = 0; i < NEDGE; i++) { numeral(b, EDGE[i]); b[5] = 0; vp_assert(src_linenumber(t[i]) == k + EDGE[i] + 1, "line of an earlier token"); vp_assert(!strncmp(src_source_line(t[i]), b, 5), "text of an earlier token"); vp_assert(!strcmp(src_filename(t[i]), "f"), "file"); }
        src_advance(k); s = src_get(2); vp_assert(src_offset(s) == k + 1 && src_linenumber(s) == k + N, "far along a line"); 
        st = src_get_stats(); vp_assert(st->lines_used == N, "lines"); xfree(st);
        src_destroy(); str_destroy(); vp_reach("source");
    }
#elif MODE == 9
    {
        sl_List l = sl_create(cmp, kf, NULL); int n; e = EDGE[vp_choice(NEDGE, "edge")];
        for (i = N - 1; i >= 0; i--) sl_insert(l, &cell[i]);
        for (i = 0; i < N; i += 2) { n = sl_find(l, &cell[i]) == &cell[i]; if (i > 4) break; vp_assert(n, "found"); }
        vp_assert(sl_find(l, &cell[0]) == &cell[0], "found");
        stopAt = e + 1; n = sl_iterate(l, inorder); vp_assert(n == 7 && next == e + 1, "up to the stop");
        xarg = l; next = stopAt = 0; n = sl_iterate_arg(l, ordera, l); vp_assert(n == 0 && next == N, "every datum in order");
        vp_assert(sl_find(l, &cell[e]) == &cell[e] && !sl_find(l, &cell[N]), "found, not found"); sl_delete(l, &cell[e]); vp_assert(!sl_find(l, &cell[e]), "deleted");
        sl_destroy(l); _sl_shutdown(); (void)evenorder; vp_reach("skip");
    }
#elif MODE == 10
    {
        static char t[6 * N + 1]; arg_List a; int q = vp_choice(2, "style") ? ARG_NO_QUOTE : 0;
        for (i = 0; i < N; i++) { numeral(t + 6 * i, i); t[6 * i + 5] = ' '; } t[6 * N - 1] = 0;
        a = arg_argify(t, q); vp_assert(arg_count(a) == N, "count");
        for (i = 0; i < N; i++) { numeral(b, i); vp_assert(!strcmp(arg_get(a, i), b), "argument"); }
        arg_destroy(a); vp_reach("argify");
    }
#elif MODE == 12
    {
        static char k[4][70010]; int l = 1 + EDGE[vp_choice(NEDGE, "edge")], j; hsh_HashTable t = hsh_create(NULL, NULL); set_Set u = set_create(NULL, NULL);
        for (j = 0; j < 4; j++) memset(k[j], 'a', l); k[1][l - 1] = 'b'; k[2][l / 2] = k[2][l / 2] == 'a' ? 'c' : 'd'; k[3][l] = 'a';
        if (l == 1) k[2][0] = 'd';
        for (j = 0; j < 4; j++) { int r = hsh_insert(t, k[j], &cell[j]); vp_assert(r == 0, "a new key"); r = set_insert(u, k[j]); vp_assert(r == 0, "a new element"); }
        for (j = 0; j < 4; j++) { char *c = xstrdup(k[j]); vp_assert(hsh_retrieve(t, c) == &cell[j], "found by an equal key"); vp_assert(set_member(u, c), "member"); vp_assert(hsh_string_hash(c) == hsh_string_hash(k[j]) && !hsh_string_compare(c, k[j]), "equal"); 
            for (i = 0; i < 4; i++) vp_assert(!hsh_string_compare(c, k[i]) == (i == j), "compare"); c[l - 1] = 'z'; vp_assert(!hsh_retrieve(t, c) && !set_member(u, c), "not there"); xfree(c); }
        e = vp_choice(4, "which"); vp_assert(hsh_delete(t, k[e]) == 0 && set_delete(u, k[e]) == 0, "deleted"); for (j = 0; j < 4; j++) vp_assert(!hsh_retrieve(t, k[j]) == (j == e) && !set_member(u, k[j]) == (j == e), "the others stay");
        hsh_destroy(t); set_destroy(u); vp_reach("keys");
    }
#elif MODE == 13
    {
        static char k[70010]; int l = EDGE[vp_choice(NEDGE, "edge")], h = vp_choice(3, "how"); arg_List a = arg_create();
        memset(k, 'x', l); if (l) { k[0] = 'f'; k[l - 1] = 'l'; }
        arg_add(a, "first"); if (h == 0) arg_add(a, k); else if (h == 1) arg_addn(a, k, l); else { arg_grow(a, k, l / 2); arg_grow(a, k + l / 2, l - l / 2); arg_finish(a); }
        arg_add(a, "last"); vp_assert(arg_count(a) == 3 && !strcmp(arg_get(a, 0), "first") && !strcmp(arg_get(a, 1), k) && !strcmp(arg_get(a, 2), "last"), "arguments kept");
        arg_destroy(a); vp_reach("longarg");
    }
#else
    {
        static const char *o[N]; e = EDGE[vp_choice(NEDGE, "edge")];
        for (i = 0; i < N; i++) { numeral(b, i); prs_register_concrete(o[i] = str_find(b), i & 1 ? "odd" : "even"); }
        for (i = 0; i < N; i++) { const char *p = prs_concrete(o[i]); vp_assert(!strcmp(p, i & 1 ? "odd" : "even"), "what was registered"); }
        prs_register_concrete(o[e], "new"); vp_assert(!strcmp(prs_concrete(o[e]), e & 1 ? "odd" : "even") || !strcmp(prs_concrete(o[e]), "new"), "registered again");
        _prs_shutdown(); str_destroy(); vp_reach("prs");
    }
#endif
    vp_assert(vp_live() == live0, "everything is released");
}
