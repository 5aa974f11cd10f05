/* Any of n when n is small; the ends, the middle and some in between when it is large. */
#ifndef FEW_H
#define FEW_H
static int few(int n, const char *name)
{
    int at[9];
    if (n <= 40) return vp_choice(n, name);
    at[0] = 0; at[1] = 1; at[2] = n / 4; at[3] = n / 3; at[4] = n / 2; at[5] = n - n / 5; at[6] = n - 3; at[7] = n - 2; at[8] = n - 1;
    return at[vp_choice(9, name)];
}
#endif
