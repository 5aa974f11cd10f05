/* base 26 numbers */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
#include "few.h"
void harness(void)
{
    int mode = vp_param("mode", 0), i;
    if (mode == 0) {                         /* digits -> number -> digits, most significant digits concrete or symbolic */
        int n = vp_param("len", 2), hi = vp_param("hi", 0); unsigned long v = 0; int d[8]; const char *s; char c[8];
        for (i = 0; i < n; i++) { d[i] = i < hi ? vp_choice(vp_param("hic", 3), "hi") * (vp_param("hic", 3) == 2 ? 24 : 12) + 1 : (int)vp_range(i == 0 && n > 1 ? 1 : 0, 25, "d"); v = v * 26 + d[i]; }
        s = b26_encode(v);
        vp_assert((int)strlen(s) == n, "shortest form");
        for (i = 0; i < n; i++) { vp_assert(s[i] == 'a' + d[i], "digits, most significant first"); c[i] = 'a' + d[i]; }
        c[n] = 0;
        vp_assert(b26_decode(c) == v, "decode(encode(v)) == v");
        vp_reach("end");
    } else if (mode == 1) {                  /* every digit string has its positional value */
        int n = vp_choice(vp_param("len", 7) + 1, "len"); unsigned long want = 0; char *b = xmalloc(n + 1);
        for (i = 0; i < n; i++) { int d = vp_range(0, 25, "d"); b[i] = 'a' + d; want = want * 26 + d; }
        b[n] = 0;
        vp_assert(b26_decode(b) == want, "value of a digit string");
        xfree(b); vp_reach("end");
    } else if (mode == 2) {
        unsigned char s[4]; int n = 3, bad = 0; volatile unsigned long want = 0, v = 0;
        vp_capture(&stderr);
        vp_bytes(s, n, "c"); s[n] = 0;
        for (i = 0; i < n; i++) { vp_assume(s[i] != 0); if (s[i] < 'a' || s[i] > 'z') bad = 1; else want = want * 26 + (s[i] - 'a'); }
        if (VP_CATCH) { v = b26_decode((char*)s); VP_END_CATCH; vp_assert(!bad, "a string with an illegal character is refused"); vp_assert(v == want, "value"); vp_reach("good"); }
        else { vp_assert(bad, "legal strings are accepted"); vp_reach("refused"); }
    } else if (mode == 4) {                  /* one byte anywhere in a long text */
        int l = a_length("len"), at = few(l, "at"); volatile int good; unsigned char *t = xmalloc(l + 1); memset(t, 'a', l); t[l] = 0;
        vp_capture(&stderr); vp_bytes(t + at, 1, "c"); vp_assume(t[at] != 0); good = t[at] >= 'a' && t[at] <= 'z';
        if (VP_CATCH) { b26_decode((char *)t); VP_END_CATCH; vp_assert(good, "a string with an illegal character is refused"); }
        else vp_assert(!good, "legal strings are accepted");
        if (!good) vp_reach("long");
    } else {                                 /* sequences of conversions: no value depends on the ones before */
        int far = vp_param("far", 0), sh = far ? vp_choice(33, "shift") : 0;
        unsigned long a = vp_range(0, far ? 15 : 675, "a"), b = far ? a + (1UL << sh) : vp_range(0, 675, "b"); char c[8], e[8];
        strcpy(c, b26_encode(a)); strcpy(e, b26_encode(b));
        vp_assert(!strcmp(b26_encode(a), c), "same text for the same value");
        vp_assert((strcmp(c, e) == 0) == (a == b), "different values have different texts");
        vp_assert(b26_decode(c) == a, "first value"); vp_assert(b26_decode(e) == b, "second value");
        vp_reach("end");
    }
}
