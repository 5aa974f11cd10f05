/* Source manager: what a token recorded stays true, whatever is read after it. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include "lens.h"
#include <string.h>
#define MAXT 12
static struct { src_Type s; const char *file; int line, off, len, idx; } tk[MAXT];
static struct { const char *p; char txt[12]; int n; } ln[MAXT];
static int nt, nl, line, off, cur; static char file[24]; static const char *files[MAXT * 2]; static int nf, pre;
static const char *newfile(const char *n) { char *b = xmalloc(16); strcpy(b, n); files[nf++] = b; return b; }
static void add(int L)
{
    int n = vp_choice(L + 1, "len"), i; char *b = xmalloc(n + 1);     /* one byte more: never read */
    if (vp_param("wide", 0)) vp_bytes(b, n, "c"); else for (i = 0; i < n; i++) b[i] = "\tx\n"[vp_choice(3, "c")];
    for (i = 0; i < n; i++) vp_assume(b[i] != 0);
    b = xrealloc(b, n ? n : 1);
    ln[nl].p = src_line(b, n);
    for (i = 0; i < n; i++) ln[nl].txt[i] = b[i] == '\t' ? ' ' : b[i];
    ln[nl].txt[n] = 0; ln[nl].n = n;
    memset(b, '!', n); xfree(b);
    vp_assert(ln[nl].p != NULL, "stored line"); 
    nl++; line++; off = 0; cur = nl - 1;
}
static void check(void)
{
    int i;
    for (i = 0; i < nl; i++) vp_assert(!strcmp(ln[i].p, ln[i].txt), "stored lines keep their text, tabs become blanks");
    for (i = 0; i < nt; i++) {
        if (tk[i].file) vp_assert(!strcmp(src_filename(tk[i].s), tk[i].file), "file of a token"); else vp_assert(src_filename(tk[i].s) == NULL, "no file yet");
        vp_assert(src_linenumber(tk[i].s) == tk[i].line, "line number of a token");
        vp_assert(src_offset(tk[i].s) == tk[i].off, "offset of a token");
        vp_assert(src_length(tk[i].s) == tk[i].len, "length of a token");
        vp_assert(!strcmp(src_source_line(tk[i].s), ln[tk[i].idx].txt), "source text of a token");
    }
    vp_assert(src_linenumber(NULL) == 0 && src_offset(NULL) == 0 && src_length(NULL) == 0 && !strcmp(src_filename(NULL), "") && !strcmp(src_source_line(NULL), ""), "no token");
}
void harness(void)
{
    int ops = vp_param("ops", 3), L = vp_param("linelen", 2), i, rounds = vp_param("rounds", 1), r; long live0;
    pre = vp_param("prefill", 0);
    if (vp_param("create", 0)) vp_capture(&stderr);
    live0 = vp_live(); trace();
    if (vp_param("long", 0)) {               /* long lines and file names */
        static char a[4300 + LX], b[4300 + LX], fnm[4300 + LX]; int l = a_length("len"), nl2 = vp_choice(2, "newline"), k; const char *p, *q; src_Type s; char *e;
        a_text(a, l, 0); a[l / 2] = a[l - 2] = '\t'; if (nl2) a[l - 1] = '\n'; strcpy(b, a); b[l / 2] = b[l - 2] = ' '; a_text(fnm, l, 3);
        src_new_file(fnm); e = xmalloc(l); memcpy(e, a, l); p = src_line(e, l); vp_assert(!strcmp(p, b), "stored lines keep their text, tabs become blanks"); memset(e, 'Z', l); xfree(e);
        src_advance(l - 5); s = src_get(3);
        vp_assert(!strcmp(src_source_line(s), b) && !strcmp(src_filename(s), fnm) && src_offset(s) == l - 5 && src_linenumber(s) == 1, "what a token recorded");
        q = src_line("next\n", 5); vp_assert(!strcmp(q, "next\n") && !strcmp(p, b), "stored lines keep their text");
        e = xmalloc(l + 16); k = sprintf(e, "# 12 \"%s\"", fnm + 1); src_cpp_line(e, k); memset(e, 'Z', l); xfree(e); src_line("q\n", 2); s = src_get(1);
        vp_assert(src_linenumber(s) == 12 && !strcmp(src_filename(s), fnm + 1), "a preprocessor line names file and line");
        src_destroy(); str_destroy(); vp_assert(tracing || vp_live() == live0, "everything is released"); vp_reach("long"); return;
    }
    for (r = 0; r < rounds; r++) {
        if (vp_param("create", 0)) { src_create(); if (VP_CATCH) { src_create(); VP_END_CATCH; vp_fail("the source manager exists once"); } vp_assert(vp_end_kind == 1, "refused");
            if (vp_param("create", 0) == 2) {      /* a token before any line: the input is empty */
                size_t len; const char *t; src_Type e; src_new_file("e.y"); e = src_get(2); vp_assert(!*src_source_line(e) && !strcmp(src_filename(e), "e.y") && src_linenumber(e) == 0 && src_offset(e) == 0 && src_length(e) == 2, "a token of an empty source");
                vp_capture_reset(&stderr); src_parse_error(stderr, e, "empty"); t = vp_captured(&stderr, &len); vp_assert(!strncmp(t, "e.y:0: empty\n", 13) && len < 60, "an error in an empty source is reported"); src_destroy(); vp_reach("empty"); continue; } }
        const char *curfile = NULL; src_Type first = NULL; const char *firstLine = NULL;
        nt = nl = line = off = cur = 0;
        for (i = 0; i < pre; i++) { const char *p = src_line("abc\n", 4); line++; if (!i) { firstLine = p; first = src_get(2); vp_assert(src_linenumber(first) == 1 && src_offset(first) == 0, "line numbers start at 1, offsets at 0"); } }
        if (r && !pre) { }
        add(L); 
        for (i = 0; i < ops; i++) switch (vp_choice(6, "op")) {
        case 0: add(L); break;
        case 1: { static const char *const fn[] = { "a.c", "dir/b.h" }; char b[16]; strcpy(b, fn[vp_choice(2, "file")]); src_new_file(b); curfile = newfile(b); memset(b, 'Z', 15); } break;
        case 2: line = (int)vp_range(0, 2000000000, "line"); src_new_line(line); break;
        case 3: { int a = (int)vp_range(0, 150000000, "adv"); src_advance(a); off += a; } break;
        case 4: { int a = (int)vp_range(0, 150000000, "toklen"); tk[nt].s = src_get(a); tk[nt].file = curfile; tk[nt].line = line; tk[nt].off = off; tk[nt].len = a; tk[nt].idx = cur;
                  { int j; for (j = 0; j < nt; j++) vp_assert(tk[j].s != tk[nt].s, "tokens are distinct objects"); } off += a; nt++; } break;
        case 5: { char *b; int n, form = vp_choice(4, "form"); char d = '0' + vp_range(1, 9, "digit"); const char *f = "inc.h";
                  static const char *const fm[] = { "# ? \"inc.h\"", "#line ?7 \"inc.h\" 1 2\n", "# 1?", "#   ?00000   \"inc.h\"" };
                  n = strlen(fm[form]); b = xmalloc(n); memcpy(b, fm[form], n); for (n = 0; b[n] != '?'; n++) ; b[n] = d; n = strlen(fm[form]);
                  src_cpp_line(b, n); xfree(b);
                  line = (form == 0 ? d - '0' : form == 1 ? (d - '0') * 10 + 7 : form == 2 ? 10 + d - '0' : (d - '0') * 100000) - 1;      /* the line after it has that number */
                  if (form != 2) curfile = newfile(f); } break;
        }
        check();
        if (pre) { vp_assert(!strcmp(firstLine, "abc\n"), "the first line stays"); vp_assert(!strcmp(src_source_line(first), "abc\n") && src_linenumber(first) == 1, "the first token stays"); }
        { src_Stats s = src_get_stats(); int t = 0; vp_assert(s->lines_used == nl + pre, "number of lines"); vp_assert(s->lines_allocated >= s->lines_used, "there is room"); t = nt + (pre ? 1 : 0); vp_assert(s->tokens_total == t, "number of tokens"); xfree(s); }
        src_destroy();
        if (VP_CATCH) { (void)src_get(1); VP_END_CATCH; vp_fail("no token without source"); }
        vp_assert(vp_end_kind == 1 && vp_end_code == 1, "use after destroy is refused");
    }
    vp_reach("end");
    for (i = 0; i < nf; i++) xfree((void*)files[i]);
    str_destroy();
    vp_assert(tracing || vp_live() == live0, "everything is released");
}
