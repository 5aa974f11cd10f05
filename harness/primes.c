/* primality and next prime */
#include "maa.h"
#include "vp.h"
static const int pr[] = { 2,3,5,7,11,13,17,19,23,29,31,37,41,43,47,53,59,61,67,71,73,79,83,89,97,101,103,107,109,113,127,131,137,139,149,151,157,163,167,173,179,181,191,193,197,199,211,223,227,229,233,239,241,251 };
/* prime test for v < 257*257, by the definition */
static int prime(unsigned v) { int i, c = v > 1; for (i = 0; i < (int)(sizeof pr / sizeof *pr); i++) c &= !((v % pr[i] == 0) & (v != (unsigned)pr[i])); return c; }
static int primeBig(unsigned v) { unsigned long d; if (v < 2) return 0; for (d = 2; d * d <= v; d++) if (v % d == 0) return 0; return 1; }
void harness(void)
{
    int mode = vp_param("mode", 0);
    if (mode == 0) {
        unsigned v = vp_range(vp_param("lo", 0), vp_param("hi", 255), "value");
        int r = prm_is_prime(v);
        vp_assert((r != 0) == prime(v), "is_prime");
        if (r) vp_reach("prime"); else vp_reach("composite");
    } else if (mode == 1) {                  /* next prime: the least odd prime >= start */
        unsigned s = vp_range(vp_param("lo", 0), vp_param("hi", 255), "start"); unsigned long r = prm_next_prime(s), i;
        vp_assert(r >= s && (r & 1) && prime(r), "an odd prime not below start");
        vp_assert(r < s + 80, "prime gaps are short here");
        for (i = s; i < r; i++) vp_assert((i & 1) == 0 || !prime(i), "no odd prime is skipped");
        vp_reach("end");
    } else if (mode == 3) {                  /* what was asked before does not matter */
        int lo = vp_param("lo", 0), w = vp_param("width", 32), k, a[3], f[3];
        for (k = 0; k < 2; k++) { f[k] = vp_choice(2, "next"); a[k] = lo + vp_choice(w, "a"); }
        a[2] = a[0]; f[2] = !f[1];
        for (k = 0; k < 3; k++) {
            if (f[k]) { unsigned long r = a[k] | 1; while (!primeBig(r)) r += 2; vp_assert(prm_next_prime(a[k]) == r, "least odd prime not below"); }
            else vp_assert((prm_is_prime(a[k]) != 0) == primeBig(a[k]), "is_prime");
        }
        vp_reach("end");
    } else if (mode == 4) {                  /* products of two large primes, squares, powers of two, pseudoprimes */
        static const unsigned p[] = { 127, 131, 137, 179, 181, 191, 193, 251, 257, 263, 499, 503, 509, 521, 997, 1009, 1021, 1031, 2039, 2053, 4093, 4099, 8191, 8209, 16381, 16411, 32749, 32771, 46337, 46349, 65519, 65521 };
        static const unsigned q[] = { 2047, 15841, 29341, 42799, 49141, 1373653, 1530787, 1987021, 2284453, 25326001, 3215031751u, 56052361, 118901521, 172947529, 1194649, 12327121, 2147483647, 2147483649u, 4294836197u, 4294967291u, 3474749661u };
        unsigned v, i; unsigned long r;
        switch (vp_choice(3, "kind")) {
        case 0: i = vp_choice(sizeof p / sizeof *p, "p"); r = (unsigned long)p[i] * p[i + (i + 1 < sizeof p / sizeof *p && vp_choice(2, "next"))]; if (r > 0xffffffffu) r = p[i]; v = r + 2 * vp_choice(3, "around") - 2; break;
        case 1: i = 14 + vp_choice(18, "power"); v = (1u << i) + 1 + 2 * vp_choice(8, "around") - 8; break;
        default: v = q[vp_choice(sizeof q / sizeof *q, "q")]; break;
        }
        vp_assert((prm_is_prime(v) != 0) == primeBig(v), "is_prime");
        if (v <= 4294967291u) { for (r = v | 1; !primeBig(r); r += 2) ; vp_assert(prm_next_prime(v) == r, "least odd prime not below"); }
        vp_reach("end");
    } else {                                 /* the top of the 32-bit range */
        unsigned v = 0xffffffffu - (unsigned)vp_param("below", 0) - vp_choice(vp_param("count", 16), "below");
        vp_assert((prm_is_prime(v) != 0) == primeBig(v), "is_prime");
        vp_reach("end");
    }
}
