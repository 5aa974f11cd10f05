/* bits of a word */
#include "maa.h"
#include "vp.h"
void harness(void)
{
    unsigned long f0 = vp_sym(64, "flags"), f = f0, g; int b = vp_range(0, 63, "bit"), c = vp_range(0, 63, "other"), i, n = 0;
    int mode = vp_param("mode", 0);
    if (mode == 0) {
        vp_assert((bit_tst(&f, b) != 0) == ((f0 >> b & 1) != 0), "test"); vp_assert(f == f0, "test changes nothing");
        bit_set(&f, b);
        vp_assert(f == (f0 | 1UL << b), "set sets that bit only"); vp_assert(bit_tst(&f, b) != 0, "set bit tests true");
        if (b != c) vp_assert((bit_tst(&f, c) != 0) == (bit_tst(&f0, c) != 0), "other bits stay");
        bit_clr(&f, b);
        vp_assert(f == (f0 & ~(1UL << b)), "clear clears that bit only"); vp_assert(bit_tst(&f, b) == 0, "cleared bit tests false");
        if (b != c) vp_assert((bit_tst(&f, c) != 0) == (bit_tst(&f0, c) != 0), "other bits stay");
        vp_reach("end");
    } else if (mode == 1) {                  /* count: 0 for the empty word, one more for every further bit */
        f = 0; vp_assert(bit_cnt(&f) == 0, "no bit set");
        b = vp_choice(64, "which");
        f = f0 & ~(1UL << b); g = f0 | 1UL << b;
        vp_assert(bit_cnt(&g) == bit_cnt(&f) + 1, "one more bit, one more counted");
        vp_reach("end");
    } else if (mode == 3) {                  /* the same eight bits at a time, for implementations that branch on every bit */
        static const unsigned long rest[] = { 0, ~0UL, 0x5555555555555555UL, 0x8000000000000001UL };
        unsigned long m; b = vp_choice(8, "byte") * 8; m = 255UL << b; c = vp_choice(4, "rest");
        f = g = (rest[c] & ~m) | (f0 & m);
        for (i = 0; i < 64; i++) n += f >> i & 1;
        vp_assert(bit_cnt(&f) == n, "number of set bits"); vp_assert(f == g, "count changes nothing");
        vp_reach("end");
    } else {
        for (i = 0; i < 64; i++) n += f0 >> i & 1;
        vp_assert(bit_cnt(&f) == n, "number of set bits"); vp_assert(f == f0, "count changes nothing");
        vp_reach("end");
    }
}
