/* Memory exhaustion at any single allocation: a clean fatal exit, or no effect at all. */
#include "maa.h"
#include "vp.h"
#include <stdlib.h>
#include <string.h>
#include "procmodel.h"
static volatile int n, failAt = -1, failed, forever; static volatile int done;
static int fails(void) { if (failAt < 0) return 0; if (n++ == failAt || (forever && failed)) { failed++; return 1; } return 0; }
void *vp_malloc(size_t s) { return fails() ? NULL : malloc(s); }
void *vp_calloc(size_t a, size_t b) { return fails() ? NULL : calloc(a, b); }
void *vp_realloc(void *p, size_t s) { return fails() ? NULL : realloc(p, s); }
char *vp_strdup(const char *s) { return fails() ? NULL : strdup(s); }
/* the outside of processes and logs */
pid_t vp_waitpid(pid_t p, int *st, int opt) { (void)opt; if (st) *st = 0; return p; }
ssize_t vp_write(int fd, const void *b, size_t n) { (void)fd; (void)b; return n; }
int vp_mkdir(const char *p, mode_t m) { (void)p; (void)m; return 0; }
void vp_openlog(const char *i, int o, int f) { (void)i; (void)o; (void)f; }
void vp_vsyslog(int p, const char *f, va_list ap) { (void)p; (void)f; (void)ap; }
static int cmp(const void *a, const void *b); static const void *kf(const void *d); static int D[200];
static void *Prep; static int it(const void *d) { (void)d; return 0; }
/* what exists before memory runs out */
static void prepare(int sc)
{
    int i;
    switch (sc) {
    case 12: src_new_file("f"); for (i = 0; i < 998; i++) src_line("x\n", 2); break;
    case 15: Prep = hsh_create(hsh_pointer_hash, hsh_pointer_compare); for (i = 1; i < 130; i++) hsh_insert(Prep, D + i, D); break;
    case 16: Prep = set_create(hsh_pointer_hash, hsh_pointer_compare); for (i = 1; i < 130; i++) set_insert(Prep, D + i); break;
    case 17: Prep = arg_create(); for (i = 0; i < 61; i++) arg_add(Prep, "x"); break;
    case 18: Prep = sl_create(cmp, kf, NULL); for (i = 0; i < 60; i++) sl_insert(Prep, D + i); break;
    }
}
static int cmp(const void *a, const void *b) { int x = *(const int*)a, y = *(const int*)b; return x < y ? -1 : x > y; } static const void *kf(const void *d) { return d; }
static int D[200]; static char names[40][4];
static void scenario(int sc)
{
    int i; void *a, *b, *c;
    switch (sc) {
    case 0: a = hsh_create(NULL, NULL); for (i = 0; i < 20; i++) hsh_insert(a, names[i], &D[i]); for (i = 0; i < 20; i++) vp_assert(hsh_retrieve(a, names[i]) == &D[i], "table works"); xfree(hsh_get_stats(a)); hsh_destroy(a); break;
    case 1: a = set_create(NULL, NULL); for (i = 0; i < 20; i++) set_insert(a, names[i]); b = set_create(NULL, NULL); set_insert(b, names[30]); c = set_union(a, b); vp_assert(set_count(c) == 21, "union"); set_destroy(c); c = set_inter(a, b); vp_assert(set_count(c) == 0, "intersection"); set_destroy(c); c = set_diff(a, b); vp_assert(set_count(c) == 20, "difference"); xfree(set_get_stats(c)); set_destroy(c); set_add(b, a); vp_assert(set_count(b) == 21, "add"); set_destroy(a); set_destroy(b); break;
    case 2: a = lst_create(); for (i = 0; i < 5; i++) lst_append(a, &D[i]); lst_push(a, &D[9]); vp_assert(lst_length(a) == 6 && lst_top(a) == &D[9], "list works"); lst_destroy(a); _lst_shutdown(); break;
    case 3: a = stk_create(); for (i = 0; i < 4; i++) stk_push(a, &D[i]); vp_assert(stk_pop(a) == &D[3], "stack works"); stk_destroy(a); break;
    case 4: a = sl_create(cmp, kf, NULL); for (i = 0; i < 6; i++) sl_insert(a, &D[i]); vp_assert(sl_find(a, &D[3]) == &D[3], "skip list works"); sl_destroy(a); _sl_shutdown(); break;
    case 5: a = arg_argify("a 'b c' d e f g h", 0); vp_assert(arg_count(a) == 7 && !strcmp(arg_get(a, 1), "b c"), "argument list works"); arg_add(a, "x"); arg_destroy(a); break;
    case 6: a = mem_create_strings(); for (i = 0; i < 20; i++) vp_assert(!strcmp(mem_strcpy(a, names[i]), names[i]), "string works"); mem_grow(a, "xx", 2); mem_finish(a); xfree(mem_get_string_stats(a)); mem_destroy_strings(a); a = mem_create_objects(24); b = mem_get_object(a); mem_free_object(a, b); mem_get_empty_object(a); mem_get_object(a); xfree(mem_get_object_stats(a)); mem_destroy_objects(a); break;
    case 7: for (i = 0; i < 15; i++) vp_assert(str_find(names[i]) == str_find(names[i]), "pool works"); vp_assert(str_find(names[0]) == str_findn(names[0], 2), "pool works"); str_copy("q"); str_grow("zz", 2); str_finish(); str_unique("u"); xfree(str_get_stats()); str_destroy(); break;
    case 8: src_new_file("f"); src_line("abc\n", 4); vp_assert(src_offset(src_get(1)) == 0, "source works"); src_cpp_line("# 3 \"x\"", 7); xfree(src_get_stats()); src_destroy(); prs_register_concrete("T_A", "+"); vp_assert(!strcmp(prs_concrete("T_A"), "+"), "symbols work"); _prs_shutdown(); str_destroy(); break;
    case 9: dbg_register(1, "one"); dbg_set("one"); vp_assert(dbg_test(1), "flags work"); dbg_destroy(); flg_register(2, "two"); flg_set("two"); flg_destroy(); tim_start("t"); tim_stop("t"); tim_reset("t"); _tim_shutdown(); break;
    case 10: a = xmalloc(10); b = xcalloc(3, 4); a = xrealloc(a, 20); c = xstrdup("abc"); vp_assert(!strcmp(c, "abc") && ((char*)b)[11] == 0, "blocks work"); xfree(a); xfree(b); xfree(c); break;
    case 12: for (i = 0; i < 4; i++) src_line("yy\n", 3); a = src_get(1); vp_assert(src_linenumber(a) == 1002 && !strcmp(src_source_line(a), "yy\n"), "source works"); src_destroy(); str_destroy(); break;
    case 13: { int in, out; pr_open("cmd 'a b' c", PR_CREATE_STDIN | PR_CREATE_STDOUT, &in, &out, NULL); vp_assert(!pr_spawn("cmd"), "command works"); vp_assert(!pr_spawn("cmd 'a b'"), "command works"); pr_close_nowait(in); pr_close(out); _pr_shutdown(); break; }
    case 14: log_syslog("me"); log_file("me", "file"); log_stream("me", stderr); log_info("x"); log_error("r", "x"); err_warning("r", "x"); log_close(); str_destroy(); break;
    case 15: for (i = 130; i < 190; i++) hsh_insert(Prep, D + i, D); vp_assert(hsh_retrieve(Prep, D + 7) == D && hsh_retrieve(Prep, D + 170) == D, "table works"); hsh_destroy(Prep); break;
    case 16: for (i = 130; i < 190; i++) set_insert(Prep, D + i); vp_assert(set_member(Prep, D + 7) && set_count(Prep) == 189, "set works"); set_destroy(Prep); break;
    case 17: for (i = 0; i < 5; i++) arg_addn(Prep, "yz", 1); arg_grow(Prep, "q", 1); arg_finish(Prep); vp_assert(arg_count(Prep) == 67 && !strcmp(arg_get(Prep, 66), "q"), "argument list works"); arg_destroy(Prep); break;
    case 18: for (i = 60; i < 64; i++) sl_insert(Prep, D + i); sl_iterate(Prep, it); vp_assert(sl_find(Prep, &D[61]) == &D[61], "skip list works"); sl_destroy(Prep); _sl_shutdown(); break;
    case 11: maa_init("prog"); str_find("x"); maa_shutdown(); break;
    }
}
void harness(void)
{
    int i, sc = vp_param("sc", 0), N = vp_param("max", 40), k; size_t len; const char *t; long live0;
    for (i = 0; i < 200; i++) D[i] = i;
    model_init(); anyFile = 1;
    for (i = 0; i < 40; i++) { names[i][0] = 'a' + i % 26; names[i][1] = 'A' + i / 5; names[i][2] = 0; }
    vp_capture(&stderr);
    k = vp_choice(N + 1, "failAt"); forever = vp_choice(2, "forever");
    live0 = vp_live(); prepare(sc);
    failAt = k; 
    if (VP_CATCH) { scenario(sc); VP_END_CATCH; done = 1; }
    failAt = -1;
    if (done) {
        vp_assert(!failed, "a failed allocation is noticed"); vp_assert(vp_live() == live0, "everything is released");
        if (k == N) vp_reach("enough"); 
    } else {
        vp_assert(failed > 0, "no exit without a failure"); vp_assert(vp_end_kind == 1 && vp_end_code == 1, "out of memory ends the program with status 1");
        t = vp_captured(&stderr, &len); vp_assert(strstr(t, "emory") != NULL && (sc == 14 || t[len - 1] == '\n'), "and tells why");
        vp_reach("out of memory");
    }
}
