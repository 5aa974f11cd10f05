/* Concrete names of parser symbols. */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
#ifndef MAXN
#define MAXN 20
#endif
static char s[MAXN][8], c[MAXN][8]; static int n;
static int find(const char *x) { int i; for (i = 0; i < n; i++) if (!strcmp(s[i], x)) return i; return -1; }
static void sym(char *b) { int i, l = vp_choice(vp_param("len", 2) + 1, "len"); for (i = 0; i < l; i++) b[i] = "T_\xe4"[vp_choice(vp_param("alpha", 2), "c")]; b[l] = 0; }
static void check(void)
{
    int i;
    for (i = 0; i < n; i++) { const char *r = prs_concrete(s[i]); vp_assert(r && !strcmp(r, c[i]), "a registered symbol has the text registered first"); }
}
static void unknown(void) { char b[8]; sym(b); if (find(b) < 0) { vp_assert(prs_concrete(b) == NULL, "an unknown symbol has none"); vp_reach("unknown"); } check(); }
void harness(void)
{
    int ops = vp_param("ops", 3), pre = vp_param("prefill", 0), i; long live0; vp_capture(&stderr); live0 = vp_live();
    if (vp_param("long", 0)) {                /* long symbols that differ at the end, in the middle or in length; long texts */
        static char a[4300 + LX], b[4300 + LX], u[4300 + LX], v[4300 + LX]; int l = a_length("len"), d = vp_choice(3, "differ");
        a_text(a, l, 0); a_text(b, l, 0); if (d == 0) b[l - 1] ^= 1; else if (d == 1) b[l / 2] ^= 1; else strcat(b, "x");
        a_text(u, l, 3); a_text(v, l, 4);
        prs_register_concrete(a, u); vp_assert(prs_concrete(b) == NULL, "an unknown symbol has none");
        prs_register_concrete(b, v); vp_assert(!strcmp(prs_concrete(a), u) && !strcmp(prs_concrete(b), v), "a registered symbol has the text registered first");
        prs_register_concrete(a, v); memset(a, 'z', 3); memset(u, 'z', 3); a_text(a, l, 0); vp_assert(!strncmp(prs_concrete(a), u + 3, 0) && prs_concrete(a)[0] != 'z', "kept");
        a_text(u, l, 3); vp_assert(!strcmp(prs_concrete(a), u), "a registered symbol has the text registered first");
        _prs_shutdown(); str_destroy(); vp_assert(vp_live() == live0, "everything is released"); vp_reach("long"); return;
    }
    for (i = 0; i < pre; i++) { s[n][0] = 'p'; s[n][1] = 'a' + i % 24; s[n][2] = i < 24 ? 0 : '0' + i / 24; c[n][0] = 'A' + i % 100; n++; prs_register_concrete(s[i], c[i]); }
    for (i = 0; i < ops; i++) {
        char a[8], b[8];
        switch (vp_choice(5, "op")) {
        case 0: case 1: sym(a); b[0] = "xyT"[vp_choice(3, "t")]; b[1] = 0; prs_register_concrete(a, b); if (find(a) < 0) { strcpy(s[n], a); strcpy(c[n], b); n++; } memset(a, 'z', 3); memset(b, 'z', 2); break;
        case 2: { const char *p = str_find("other"); vp_assert(!strcmp(p, "other"), "pool"); } break;
        case 4: { const char *r; sym(a); r = prs_concrete(a); if (find(a) < 0) vp_assert(r == NULL, "an unknown symbol has none"); else vp_assert(r && !strcmp(r, c[find(a)]), "a registered symbol has the text registered first"); memset(a, 'z', 3); } break;
        case 3: _prs_shutdown(); n = 0; break;
        }
        check();
    }
    unknown();
    _prs_shutdown(); n = 0; unknown(); str_destroy();
    vp_assert(vp_live() == live0, "everything is released"); vp_reach("end");
}
