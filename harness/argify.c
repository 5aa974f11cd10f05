/* arg_argify against the documented splitting rules. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
static char out[40][4300 + LX]; static int no; static char longp[4500 + LX];
static int sp(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\n'; }
/* words are separated by white space; a word is made of plain characters, quoted
   parts (quotes removed, contents verbatim) and escaped characters; an empty quoted part
   is a word; unterminated quotes and a trailing backslash end the last word */
static void reference(const char *s, int style)
{
    int inword = 0, len = 0;
    for (;;) {
        char c = *s;
        if (c == 0 || sp(c)) { if (inword) { out[no][len] = 0; no++; } inword = 0; len = 0; if (!c) return; s++; continue; }
        inword = 1;
        if (!(style & ARG_NO_QUOTE) && (c == '"' || c == '\'')) {
            s++;
            while (*s && *s != c) out[no][len++] = *s++;
            if (*s) s++;
        } else if (!(style & ARG_NO_ESCAPE) && c == '\\') {
            s++;
            if (*s) out[no][len++] = *s++;
        } else { out[no][len++] = c; s++; }
    }
}
void harness(void)
{
    int n = vp_param("len", 5), style = vp_param("style", -1), i, argc; char **argv, *s; arg_List a;
    const char *pre = vp_param("prefix", 0) == 1 ? "a b \"c d\" e\\ f " : vp_param("prefix", 0) == 2 ? "w1 w2 w3 w4 w5 w6 w7 w8 w9 " : "";
    int pl;
    long live0 = vp_live();
    if (vp_param("long", 0)) {               /* a long word: plain, quoted, with escapes, or behind much white space */
        int l = a_length("long"), k = vp_choice(4, "kind"); char *q = longp;
        if (k == 3) { memset(q, ' ', l); q[l] = 0; }
        else { if (k == 1) *q++ = '"'; a_text(q, l, 0); if (k == 1) q[l / 2] = ' ', strcat(q, "\""); if (k == 2) q[l - 2] = '\\', q[l / 2] = '\\'; strcat(q, vp_choice(2, "end") ? " " : ""); }
        pre = longp;
    }
    pl = strlen(pre);
    if (style < 0) style = vp_choice(4, "style");
    if (vp_param("before", 0)) {             /* lines split before do not matter, finished or not */
        static const char *const ls[] = { "a 'b c", "x\\", "\"\"", "p \"q r\" s\\", "", "\"it's\" o" }; int k = vp_choice(6, "line"), st = vp_choice(4, "stb"); char *t = xmalloc(strlen(ls[k]) + 1);
        strcpy(t, ls[k]); a = arg_argify(t, st);
        reference(t, st); vp_assert(arg_count(a) == no, "number of words"); for (i = 0; i < no; i++) vp_assert(!strcmp(arg_get(a, i), out[i]), "words"); no = 0;
        arg_destroy(a); xfree(t);
    }
    s = xmalloc(pl + n + 1); memcpy(s, pre, pl); vp_bytes(s + pl, n, "c"); s[pl + n] = 0;
    reference(s, style);
    a = arg_argify(s, style);
    vp_note(arg_count(a));
    vp_assert(arg_count(a) == no, "number of words");
    arg_get_vector(a, &argc, &argv);
    vp_assert(argc == no && argv[no] == NULL, "terminated vector");
    for (i = 0; i < no; i++) vp_assert(!strcmp(argv[i], out[i]), "words");
    vp_reach("end");
    if (no == 0) vp_reach("empty"); else vp_reach("words");
    arg_destroy(a); xfree(s);
    vp_assert(vp_live() == live0, "destroy releases everything");
}
