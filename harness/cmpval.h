/* What a comparison function may answer for unequal keys: any value but zero, of either sign. */
#ifndef CMPVAL_H
#define CMPVAL_H
#include <limits.h>
static int unequal(long x, long y)
{
    static const int lo[] = { -1, -256, -65536, INT_MIN }, hi[] = { 256, 1, INT_MAX, 65536 };
    unsigned k = (unsigned)(x + y) & 3;
    return x == y ? 0 : x < y ? lo[k] : hi[k];
}
/* any value that says yes */
static int yes(int k) { static const int v[] = { 1, -1, 256, INT_MIN }; return v[k & 3]; }
#endif
