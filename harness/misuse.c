/* Misuse is diagnosed: the program is ended on purpose, nothing is corrupted on the way. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <sys/types.h>
static int one, two; static int nop(const void *d) { (void)d; return 0; } static int nopa(const void *d, void *a) { (void)d; (void)a; return 0; }
static int nop2(const void *k, const void *d) { (void)k; (void)d; return 0; } static int nop3(const void *k, const void *d, void *a) { (void)k; (void)d; (void)a; return 0; }
static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; } static const void *kf(const void *d) { return d; }
static void *H[7];                                /* one object of each kind: hash set list sl args strings objects */
static void call(int kind, int op, void *h)
{
    int n; char **v; void *k;
    switch (kind) {
    case 0: switch (op) { case 0: hsh_insert(h, "k", "d"); break; case 1: hsh_delete(h, "k"); break; case 2: hsh_retrieve(h, "k"); break; case 3: hsh_iterate(h, nop2); break; case 4: hsh_iterate_arg(h, nop3, NULL); break;
                          case 5: hsh_init_position(h); break; case 6: xfree(hsh_get_stats(h)); break; case 7: hsh_readonly(h, 1); break; case 8: hsh_print_stats(h, stderr); break; default: hsh_destroy(h); break; } break;
    case 1: switch (op) { case 0: set_insert(h, "k"); break; case 1: set_delete(h, "k"); break; case 2: set_member(h, "k"); break; case 3: set_iterate(h, nop); break; case 4: set_iterate_arg(h, nopa, NULL); break;
                          case 5: set_init_position(h); break; case 6: set_count(h); break; case 7: set_readonly(h, 1); break; case 8: set_union(h, H[1]); break; case 9: set_inter(H[1], h); break; case 10: set_diff(h, H[1]); break;
                          case 11: set_equal(H[1], h); break; case 12: set_add(H[1], h); break; case 13: set_del(h, H[1]); break; case 14: set_get_hash(h); break; case 15: set_get_compare(h); break; case 16: xfree(set_get_stats(h)); break; case 17: set_print_stats(h, stderr); break; default: set_destroy(h); break; } break;
    case 2: switch (op) { case 0: lst_append(h, &one); break; case 1: lst_push(h, &one); break; case 2: lst_pop(h); break; case 3: lst_top(h); break; case 4: lst_nth_get(h, 1); break; case 5: lst_nth_set(h, 1, &one); break;
                          case 6: lst_member(h, &one); break; case 7: lst_length(h); break; case 8: lst_iterate(h, nop); break; case 9: lst_iterate_arg(h, nopa, NULL); break; case 10: lst_truncate(h, 1); break; case 11: lst_init_position(h); break;
                          case 12: lst_last_position(h); break; case 13: lst_nth_position(h, 1); break; case 14: lst_dump(h); break; case 15: lst_truncate_position(h, NULL); break; default: lst_destroy(h); break; } break;
    case 3: switch (op) { case 0: sl_insert(h, &two); break; case 1: sl_delete(h, &one); break; case 2: sl_find(h, &one); break; case 3: sl_iterate(h, nop); break; case 4: sl_iterate_arg(h, nopa, NULL); break; case 5: _sl_dump(h); break; default: sl_destroy(h); break; } break;
    case 4: switch (op) { case 0: arg_add(h, "x"); break; case 1: arg_addn(h, "xy", 1); break; case 2: arg_grow(h, "x", 1); break; case 3: arg_finish(h); break; case 4: arg_get(h, 0); break; case 5: arg_count(h); break; case 6: arg_get_vector(h, &n, &v); break; default: arg_destroy(h); break; } break;
    case 5: switch (op) { case 0: mem_strcpy(h, "x"); break; case 1: mem_strncpy(h, "x", 1); break; case 2: mem_grow(h, "x", 1); break; case 3: mem_finish(h); break; case 4: xfree(mem_get_string_stats(h)); break; case 5: mem_print_string_stats(h, stderr); break; default: mem_destroy_strings(h); break; } break;
    case 6: switch (op) { case 0: mem_get_object(h); break; case 1: mem_get_empty_object(h); break; case 2: mem_free_object(h, &one); break; case 3: xfree(mem_get_object_stats(h)); break; case 4: mem_print_object_stats(h, stderr); break; default: mem_destroy_objects(h); break; } break;
    }
    (void)k;
}
static const int nops[7] = { 10, 19, 17, 7, 8, 7, 6 };
static int calls;
int vp_open(const char *p, int f, ...) { (void)p; (void)f; return -1; }
pid_t vp_fork(void) { vp_fail("a refused request starts nothing"); return -1; }
int vp_pipe(int p[2]) { (void)p; vp_fail("a refused request opens nothing"); return -1; }
static void usable(void)
{
    void *key; hsh_Position p; int n; char **v; const void *d;
    vp_assert(hsh_retrieve(H[0], "k") == &one && !hsh_retrieve(H[0], "zz"), "hash table is intact"); vp_assert(set_member(H[1], "e") && set_count(H[1]) == 1, "set is intact");
    vp_assert(lst_length(H[2]) == 2 && lst_nth_get(H[2], 1) == &one && lst_nth_get(H[2], 2) == &two, "list is intact"); vp_assert(sl_find(H[3], &one) == &one && !sl_find(H[3], &two), "skip list is intact");
    arg_get_vector(H[4], &n, &v); vp_assert(n == 1 && !strcmp(v[0], "w") && arg_count(H[4]) == 1, "argument list is intact");
    { mem_ObjectStats s = mem_get_object_stats(H[6]); vp_assert(s->used == 1, "objects are intact"); xfree(s); } { mem_StringStats s = mem_get_string_stats(H[5]); vp_assert(s->count == 1, "strings are intact"); xfree(s); }
    (void)key; (void)p; (void)d;
}
void harness(void)
{
    int mode = vp_param("mode", 0), want = 2; const char *t; size_t len; volatile int ended = 0;
    one = 1; two = 2; vp_capture(&stderr); vp_capture(&stdout);
    H[0] = hsh_create(NULL, NULL); hsh_insert(H[0], "k", &one); H[1] = set_create(NULL, NULL); set_insert(H[1], "e"); H[2] = lst_create(); lst_append(H[2], &one); lst_append(H[2], &two);
    H[3] = sl_create(cmp, kf, NULL); sl_insert(H[3], &one); H[4] = arg_create(); arg_add(H[4], "w"); H[5] = mem_create_strings(); mem_strcpy(H[5], "s"); H[6] = mem_create_objects(16); mem_get_object(H[6]);
    if (mode == 0) {                          /* no object, or an object of another kind */
        int kind = vp_choice(7, "kind"), op = vp_choice(nops[kind], "op"), other = vp_choice(7, "other");
        void *h = other == kind ? NULL : H[other];
        if ((kind == 2 && !h && op == 0) || (kind == 3 && !h && (op == 3 || op == 4))) {      /* nothing to do, nothing done */
            long live = vp_live();
            if (VP_CATCH) { if (kind == 3) vp_assert((op == 3 ? sl_iterate(NULL, nop) : sl_iterate_arg(NULL, nopa, NULL)) == 0, "no list: nothing to visit"); else lst_append(NULL, &one); VP_END_CATCH; } else vp_fail("no list: nothing is done");
            vp_captured(&stderr, &len); vp_assert(len == 0 && vp_live() == live, "and nothing is said"); usable();
            vp_reach("nothing");
            return;
        }
        if (VP_CATCH) { call(kind, op, h); VP_END_CATCH; vp_fail("a wrong handle is refused"); } else ended = vp_end_kind;
        vp_reach("handle");
    } else if (mode == 1) {                   /* requests outside the object */
        int k = vp_choice(10, "case"), i = (int)vp_sym(32, "index"), isOne = 0;
        if (k == 0) vp_assume((unsigned)i < 1 || (unsigned)i > 2);
        if (k == 1) vp_assume(i < 0 || i >= 1);
        if (VP_CATCH) {
            switch (k) {
            case 0: want = 1; lst_nth_set(H[2], (unsigned)i, &two); break;
            case 1: arg_get(H[4], i); break;
            case 2: sl_insert(H[3], &one); break;
            case 3: sl_delete(H[3], &two); break;
            case 4: sl_create(NULL, kf, NULL); break;
            case 5: sl_create(cmp, NULL, NULL); break;
            case 6: tim_stop("nobody"); break;
            case 7: tim_reset("nobody"); break;
            case 8: (void)tim_get_real("nobody"); break;
            case 9: want = 1; xfree(NULL); break;
            }
            VP_END_CATCH; vp_fail("a request outside the object is refused");
        } else ended = vp_end_kind;
        want = k == 0 || k == 9 ? 1 : 2; (void)isOne;
        if (k == 0) vp_assert(lst_nth_get(H[2], (unsigned)i) == NULL && lst_nth_position(H[2], (unsigned)i) == NULL, "reading outside gives NULL");
        vp_reach("outside");
    } else if (mode == 2) {                   /* string keys must not be NULL */
        int k = vp_choice(7, "case");
        if (VP_CATCH) {
            switch (k) { case 0: hsh_insert(H[0], NULL, &one); break; case 1: hsh_retrieve(H[0], NULL); break; case 2: hsh_delete(H[0], NULL); break; case 3: set_insert(H[1], NULL); break; case 4: set_member(H[1], NULL); break; case 5: set_delete(H[1], NULL); break; case 6: hsh_string_compare(NULL, "x"); break; }
            VP_END_CATCH; vp_fail("a NULL string key is refused");
        } else ended = vp_end_kind;
        vp_reach("null key");
    } else if (mode == 3) {                   /* processes: contradictory or unknown flags */
        unsigned f = vp_sym(32, "flags"); int a = -1, b = -1, c = -1;
        int bad = (f & ~0x177u) != 0 || ((f & 1) && (f & 0x10)) || ((f & 2) && (f & 0x20)) || ((f & 4) && (f & 0x40)) || ((f & 0x100) && (f & 0x44));
        vp_assume(bad);
        if (VP_CATCH) { pr_open("cmd", f, &a, &b, &c); VP_END_CATCH; vp_fail("contradictory flags are refused"); } else ended = vp_end_kind;
        vp_assert(a == -1 && b == -1 && c == -1, "no descriptor is handed out"); _pr_shutdown();
        vp_reach("flags");
    } else {                                  /* closing what was not opened */
        int fd = (int)vp_sym(32, "fd");
        if (vp_choice(2, "init")) { if (VP_CATCH) { pr_open("cmd", -1, NULL, NULL, NULL); VP_END_CATCH; } }
        if (VP_CATCH) { if (vp_choice(2, "nowait")) pr_close_nowait(fd); else pr_close(fd); VP_END_CATCH; vp_fail("a descriptor pr_open did not give is refused"); } else ended = vp_end_kind;
        _pr_shutdown();
        vp_reach("close");
    }
    vp_assert(ended == want, "misuse ends the program: abort() for internal errors, exit() else"); if (want == 1) vp_assert(vp_end_code == 1, "exit status 1");
    t = vp_captured(&stderr, &len); vp_assert(len > 0 && t[len - 1] == '\n', "a report is on stderr");
    usable();
}
