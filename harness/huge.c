/* Amounts of data far beyond the stack of the program: nothing may be kept on the stack that grows with them. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include <stdlib.h>
#include <stdio.h>
#define NODES 60000
#define BYTES 500000
long vp_random(void) { return 0; }
static int key[NODES], next, last, stopAt; static void *xarg;
static const void *kf(const void *d) { return d; }
static int cmp(const void *a, const void *b) { return a < b ? -1 : a > b; }
static int visit(const void *d) { vp_assert(d == &key[next], "iteration delivers every datum once, in order"); return ++next == stopAt ? 5 : 0; }
static int visita(const void *d, void *a) { vp_assert(a == xarg, "argument passed through"); return visit(d); }
static char *text(int n, char first) { char *b = xmalloc(n + 1); memset(b, 'a', n); b[0] = first; b[n] = 0; return b; }
void harness(void)
{
    int i; long live0 = vp_live(); char c = 'b' + vp_conc(vp_range(0, 3, "byte"));
#if MODE <= 1
    {
        sl_List l = sl_create(cmp, kf, NULL); int r; static const int S[] = { 0, 1, NODES - 1, NODES, NODES + 1 };
        for (i = NODES - 1; i >= 0; i--) sl_insert(l, &key[i]);
        stopAt = S[vp_choice(5, "stop")];
        if (MODE) { xarg = &r; r = sl_iterate_arg(l, visita, &r); } else r = sl_iterate(l, visit);
        vp_assert(next == (stopAt >= 1 && stopAt <= NODES ? stopAt : NODES), "iteration visits every datum, up to the stop");
        vp_assert(r == (stopAt >= 1 && stopAt <= NODES ? 5 : 0), "returns what the callback returned");
        sl_destroy(l); _sl_shutdown(); vp_reach("list");
    }
#elif MODE == 2
    {
        char *b = text(BYTES, c); const char *p = str_findn(b, BYTES), *q, *u; int k = vp_choice(2, "which");
        q = str_find(b); vp_assert(p == q && strlen(p) == BYTES && p[0] == c && !memcmp(p, b, BYTES), "one pointer for the content");
        if (k) { u = str_copyn(b, BYTES - 1); vp_assert(strlen(u) == BYTES - 1, "a copy"); }
        else { u = str_unique(b); vp_assert(strlen(u) > BYTES && !memcmp(u, b, BYTES), "begins with the prefix"); vp_assert(str_find(u) == u, "interned"); }
        xfree(b); str_destroy(); vp_reach("string");
    }
#elif MODE == 3
    {
        char *b = xmalloc(BYTES + 20); const char *f; int n;
        strcpy(b, "# 17 \""); n = strlen(b); b[n++] = c; memset(b + n, 'a', BYTES); strcpy(b + n + BYTES, "\"");
        src_cpp_line(b, n + BYTES + 1); src_line("z\n", 2);
        { src_Type s = src_get(1); f = src_filename(s); vp_assert(src_linenumber(s) == 17, "line number of a token"); vp_assert(strlen(f) == BYTES + 1 && f[0] == c && f[BYTES] == 'a', "file of a token"); }
        xfree(b); src_destroy(); str_destroy(); vp_reach("cpp");
    }
#elif MODE == 4
    {
        char *b = xmalloc(BYTES + 20); char *t; size_t len; FILE *f = open_memstream(&t, &len);
        strcpy(b, "`T_X' "); b[6] = c; memset(b + 7, 'a', BYTES); b[7 + BYTES] = 0;
        prs_register_concrete("T_X", "xx");
        src_parse_error(f, NULL, b); fclose(f);
        vp_assert(len > BYTES && !strncmp(t, "?:?: `xx' ", 10) && t[10] == c && t[10 + BYTES] == 'a', "the message");
        free(t); xfree(b); _prs_shutdown(); str_destroy(); vp_reach("message");
    }
#else
    {
        char *b = xmalloc(BYTES + 20); arg_List a; char *e;
        e = b; *e++ = c; *e++ = ' '; memset(e, 'a', BYTES); e += BYTES; strcpy(e, " z");
        a = arg_argify(b, 0); vp_assert(arg_count(a) == 3 && arg_get(a, 0)[0] == c && strlen(arg_get(a, 1)) == BYTES && !strcmp(arg_get(a, 2), "z"), "three arguments");
        arg_destroy(a); xfree(b); vp_reach("args");
    }
#endif
    vp_assert(vp_live() == live0, "everything is released");
}
