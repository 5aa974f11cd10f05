/* Soundex codes */
#include "maa.h"
#include "vp.h"
#include <string.h>
#include "lens.h"
static char code(char c)
{
    switch (c | 32) {
    case 'b': case 'f': case 'p': case 'v': return '1';
    case 'c': case 'g': case 'j': case 'k': case 'q': case 's': case 'x': case 'z': return '2';
    case 'd': case 't': return '3'; case 'l': return '4'; case 'm': case 'n': return '5'; case 'r': return '6';
    }
    return 0;
}
static int letter(char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
void harness(void)
{
    int n = vp_param("len", 4), i, j = 0, first = 1; static char s[4400 + LX]; char want[8], *r, prev = 0; char res[8], up[24]; static char lp[4300 + LX];
    static const char *pres[] = { "", "Hilb", "Lloy", "Tym" };
    const char *pre = pres[vp_param("pre", 0)]; int pl;
    if (vp_param("long", 0)) { int l = a_length("long"), k = vp_choice(4, "kind"); for (i = 0; i < l; i++) lp[i] = k == 0 ? ' ' : k == 1 ? 'a' : k == 2 ? "Ba"[i != 0] : "B-C.k1"[i < 6 ? i : 5]; lp[l] = 0; pre = lp; }
    pl = strlen(pre);
    strcpy(s, pre); vp_bytes(s + pl, n, "c"); s[pl + n] = 0;
    strcpy(want, "Z000");
    for (i = 0; s[i]; i++) {
        if (!letter(s[i])) continue;
        if (first) { want[j++] = s[i] & ~32; first = 0; }
        else if (code(s[i]) && code(s[i]) != prev && j < 4) want[j++] = code(s[i]);
        prev = code(s[i]);
    }
    if (vp_param("before", 0)) { static const char *const b[] = { "Pfister", "Tymczak", "", "C", "Ashcraft", "77" }; int k = vp_choice(6, "before"); vp_assert(txt_soundex(b[k])[0] == "PTZCAZ"[k], "first letter"); txt_soundex2(b[k], up); }
    memset(res, 0x55, sizeof res);
    txt_soundex2(s, res);
    vp_assert(res[4] == 0 && res[5] == 0x55, "four characters and a terminator");
    vp_assert(!strcmp(res, want), "code of the name");
    vp_assert(!strcmp(txt_soundex(s), want), "static-buffer form agrees");
    vp_reach("end");
}
