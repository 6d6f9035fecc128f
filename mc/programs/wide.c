#include <stdio.h>
typedef unsigned __int128 u128;
u128 seed = ((u128)0x0123456789abcdef << 64) | 0xfedcba9876543210;
long double ld = 1.25L;
_Alignas(32) float vec[8] = {1, 2, 3, 4, 5, 6, 7, 8};
static const _Alignas(16) double two[2] = {0.5, 0.25};
int mod_wide(int x) {
    u128 q = seed / (unsigned)(x + 3), m = seed % (u128)1000000007;
    float t = 0;
    for (int i = 0; i < 8; i++) t += vec[i] * x;
    ld *= x;
    printf("wide %llx %llx %.3Lf %.1f %d %d %.3f\n", (unsigned long long)(q >> 64), (unsigned long long)m, ld, t, (int)((unsigned long)vec % 32), (int)((unsigned long)two % 16), two[1]);
    return (int)m ^ (int)t;
}
