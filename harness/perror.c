/* src_parse_error: readable message, offending line, position. */
#include "maa.h"
#include "vp.h"
#include "trace.h"
#include <string.h>
static char want[18000]; static int wn; static char longp[9000], longsym[4200], longtxt[4200];
static void w(const char *s) { while (*s) want[wn++] = *s++; want[wn] = 0; }
static void wc(char c) { want[wn++] = c; want[wn] = 0; }
static const char *sy[] = { "T_A", "T_BB", "T_" }, *co[] = { "+", "a long concrete text", "??" };
void harness(void)
{
    int n = vp_choice(vp_param("len", 5) + 1, "len"), regs = vp_param("regs", 0), i, j, L, fmt = vp_param("fmt", 0); char *m; long live0; FILE *f; int cut = 0, down = 1; const char *fn = "f.y"; static char where[40];
    static const char *const pf[] = { "", "x `T_", "``", "a`T_BB' `" }; const char *p = pf[vp_param("prefix", 0)]; src_Type s = NULL; size_t len; const char *t;
    int off = vp_param("pos", 0) ? vp_choice(3, "off") : 2, tl = vp_param("pos", 0) ? vp_choice(3, "toklen") : 1, src = vp_param("pos", 0) ? vp_choice(2, "source") : 1;
    static char ln[8] = "a+b\n"; if (vp_param("pos", 0)) { ln[0] = "a%"[vp_choice(2, "c0")]; ln[1] = "+%"[vp_choice(2, "c1")]; }
    int null = vp_param("null", 0) && vp_choice(2, "null");          /* no stream: standard output */
    if (vp_param("long", 0)) {               /* a symbol, its text, or plain text of any of these lengths */
        static const int LN[] = { 30, 31, 32, 62, 63, 64, 126, 127, 128, 254, 255, 256, 510, 512, 1022, 1024, 2048, 4096 }; int l = LN[vp_choice(18, "long")], w3 = vp_choice(3, "which");
        for (i = 0; i < l; i++) { longsym[i] = i == 0 ? 'T' : i == 1 ? '_' : 'a' + i % 23; longtxt[i] = 'A' + i % 19; }
        longsym[l] = longtxt[l] = 0; if (w3 == 0) { sy[1] = longsym; co[1] = longtxt; }
        strcpy(longp, "x `"); strcat(longp, w3 == 2 ? "T_Z' " : longsym); if (w3 == 2) strcat(longp, longtxt); if (w3 != 2) strcat(longp, "'"); p = longp;
        if (w3 == 0) vp_reach("long registered"); else if (w3 == 1) vp_reach("long unknown"); else vp_reach("long text");
    }
    if (vp_param("far", 0)) {                /* far to the right, far down */
        static const int F[] = { 0, 7, 8, 9, 79, 80, 81, 127, 128, 255, 256, 1023, 1024, 4096 }; static const int D[] = { 1, 10, 99999, 2147483647 };
        off = F[vp_choice(14, "off")]; tl = F[vp_choice(14, "toklen")]; fn = vp_choice(2, "file") ? "f%d.y" : "dir/f.y"; down = D[vp_choice(4, "line")]; vp_reach("far");
    }
    vp_capture(&stderr); vp_capture(&stdout); live0 = vp_live(); trace();
    for (i = 0; i < regs; i++) { prs_register_concrete(sy[i], co[i]); }
    if (vp_param("before", 0)) {             /* an earlier report, at another place, leaves no trace */
        static const char *const em[] = { "e `T_A' f", "``x'' g", "h `T_Z", "i" }; int k = vp_choice(5, "earlier"); src_Type e = NULL;
        src_new_file("f.y"); src_line("earlier line\n", 13); src_advance(5); if (vp_choice(2, "tok")) e = src_get(4);
        if (k < 4) { if (vp_choice(2, "how")) src_parse_error(stderr, e, em[k]); else { src_print_error(stderr, e, "%s", em[k]); src_print_message(stderr, e, "%d", 5); } }
        src_new_line(0);
    }
    if (src) { src_new_file(fn); src_new_line(down - 1); src_line(ln, 4); src_advance(off); s = src_get(tl); }
    else { src_line("zz\n", 3); }
    sprintf(where, "%s:%d: ", fn, down);
    L = strlen(p); m = xmalloc(L + n + 1); memcpy(m, p, L);
    if (regs) for (i = 0; i < n; i++) m[L + i] = "`'TA_B x"[vp_choice(vp_param("alpha", 8), "c")];
    else { vp_bytes(m + L, n, "c"); for (i = 0; i < n; i++) vp_assume(m[L + i] != 0); }
    m[L + n] = 0; L += n;
    w(src ? where : "?:?: ");
    for (i = 0; i < L; i++) {
        if (m[i] == '`') {
            if (m[i + 1] == '`' && i + 4 < L && m[i + 3] == '\'' && m[i + 4] == '\'') { wc('`'); wc(m[i + 2]); wc('\''); i += 4; continue; }
            if (m[i + 1] == 'T' && m[i + 2] == '_') {
                char b[4300]; int k = 0;
                for (j = i + 1; j < L && m[j] != '\''; j++) b[k++] = m[j];
                b[k] = 0;
                if (j == L) { cut = 1; break; }            /* symbol without an end: no text promised from here on */
                wc('`');
                for (k = 0; k < regs; k++) if (!strcmp(sy[k], b)) break;
                w(k < regs ? co[k] : b);
                wc('\''); i = j; continue;
            }
        }
        wc(m[i]);
    }
    vp_capture_reset(&stderr); f = null ? NULL : stderr;
    if (fmt == 3) { wn = 0; cut = 0; src_print_line(f, s); }
    else if (fmt == 4) { wn = 0; cut = 0; w(src ? where : "?:?: "); w("+>"); src_print_error(f, s, "+>"); }
    else if (fmt == 5) { wn = 0; cut = 0; src_print_error(f, s, NULL); }
    else if (fmt == 0) src_parse_error(f, s, m);
    else if (fmt == 1) { wn = 0; w(src ? where : "?:?: "); w("<"); w(m); w("> 7"); src_print_error(f, s, "<%s> %d", m, 7); cut = 0; }
    else { wn = 0; w(src ? where : "?:?: "); w("<"); w(m); w("> 7"); src_print_message(stderr, s, "<%s> %d", m, 7); cut = 0; }
    { size_t other; vp_captured(null ? &stderr : &stdout, &other); vp_assert(tracing || other == 0, "nothing goes elsewhere"); } t = vp_captured(null ? &stdout : &stderr, &len);
    if (cut) { vp_assert(!strncmp(t, want, wn), "the text before is unchanged"); vp_reach("cut"); }
    else {
        if (fmt != 3 && fmt != 5) wc('\n');
        if (fmt == 3) { if (src) { w(where); w(ln); } else w("?:?: <source line not available>\n"); }
        else if (fmt != 2) {
            if (src) { w(where); w(ln); } else w("?:?: <source line not available>\n");
            w(src ? where : "?:?: ");
            if (src) { for (i = 0; i < off; i++) wc(' '); for (i = 0; i < tl; i++) wc('^'); }
            wc('\n');
        }
        vp_assert((int)len == wn, "length of the report"); 
        for (i = 0, j = 1; i < wn; i++) j &= t[i] == want[i];
        vp_assert(j, "text of the report"); vp_reach("end");
    }
    xfree(m);
    _prs_shutdown(); src_destroy(); str_destroy();
}
