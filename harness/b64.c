/* base 64 numbers */
#include "maa.h"
#include "vp.h"
#include <string.h>
static const char al[] = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static int dig(unsigned char c) { return c >= 'A' && c <= 'Z' ? c - 'A' : c >= 'a' && c <= 'z' ? c - 'a' + 26 : c >= '0' && c <= '9' ? c - '0' + 52 : c == '+' ? 62 : c == '/' ? 63 : -1; }
void harness(void)
{
    int mode = vp_param("mode", 0), i;
    if (mode == 0) {                         /* every 32-bit value survives */
        unsigned long v = vp_sym(32, "val"); const char *s = b64_encode(v); char c[8]; int n;
        unsigned long x = v; n = 0; do { n++; x >>= 6; } while (x);
        vp_assert((int)strlen(s) == n, "shortest form");
        for (i = 0; i < n; i++) { vp_assert(s[i] == al[(v >> (6 * (n - 1 - i))) & 63], "digits, most significant first"); c[i] = s[i]; }
        c[n] = 0;
        vp_assert(b64_decode(c) == v, "decode(encode(v)) == v");
        for (i = 0; i < n; i++) {} 
        vp_assert(b64_decode_buf(c, n) == v, "the buffer form agrees");
        vp_reach("end");
    } else if (mode == 1) {                  /* decoding every string of digits; exact-size buffer */
        int n = vp_choice(vp_param("len", 10) + 1, "len"); unsigned long want = 0, v; char *b = xmalloc(n ? n : 1);
        for (i = 0; i < n; i++) { int d = vp_sym(6, "d"); b[i] = al[d]; want = want << 6 | d; }
        v = b64_decode_buf(b, n);
        vp_assert(v == want, "value of a digit string");
        xfree(b);
        vp_reach("end");
    } else if (mode == 2) {                  /* anything else is refused */
        unsigned char s[4]; int n = 3, bad = 0; volatile unsigned long want = 0, v = 0;
        vp_capture(&stderr);
        vp_bytes(s, n, "c"); s[n] = 0;
        for (i = 0; i < n; i++) { int d; vp_assume(s[i] != 0); d = dig(s[i]); if (d < 0) bad = 1; else want = want << 6 | d; }
        if (VP_CATCH) { v = b64_decode((char*)s); VP_END_CATCH; vp_assert(!bad, "a string with an illegal character is refused"); vp_assert(v == want, "value"); vp_reach("good"); }
        else { vp_assert(bad, "legal strings are accepted"); vp_reach("refused"); }
    } else if (mode == 4) {                  /* the same by length, zero bytes included */
        int n = vp_choice(5, "n"), bad = 0; unsigned char *s = xmalloc(n ? n : 1); volatile unsigned long want = 0, v = 0;
        vp_capture(&stderr); vp_bytes(s, n, "c");
        for (i = 0; i < n; i++) { int d = dig(s[i]); if (d < 0) bad = 1; else want = want << 6 | d; }
        if (VP_CATCH) { v = b64_decode_buf((char*)s, n); VP_END_CATCH; vp_assert(!bad, "a buffer with an illegal byte is refused"); vp_assert(v == want, "value"); vp_reach("good"); }
        else { vp_assert(bad, "legal buffers are accepted"); vp_reach("refused"); }
    } else {                                 /* consecutive conversions do not disturb each other */
        unsigned long a = vp_sym(32, "a"), b = vp_sym(32, "b"); char c[8];
        strcpy(c, b64_encode(a)); vp_assert(b64_decode(b64_encode(b)) == b, "second value"); vp_assert(b64_decode(c) == a, "first value"); vp_assert(!strcmp(b64_encode(a), c), "same text again");
        vp_reach("end");
    }
}
