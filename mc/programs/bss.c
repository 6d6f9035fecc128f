#include <stdio.h>
#include <string.h>
static char big[70000];
int zero;
static long many[1000];
_Alignas(64) static char line[64];
_Alignas(4096) static char page[4096];
static char one;
char other[3];
int mod_bss(int x) {
    unsigned s = 0;
    for (unsigned i = 0; i < sizeof big; i++) s += big[i];
    for (unsigned i = 0; i < 1000; i++) s += many[i];
    for (unsigned i = 0; i < 4096; i++) s += page[i];
    s += zero + one + other[0] + other[2] + line[63];
    memset(big, 1, sizeof big); memset(page, 2, sizeof page); memset(line, 3, sizeof line); one = 4; other[2] = 5;
    for (int i = 0; i < 1000; i++) many[i] = i;
    zero += x;
    unsigned t = 0;
    for (unsigned i = 0; i < sizeof big; i++) t += big[i];
    for (unsigned i = 0; i < 1000; i++) t += many[i];
    for (unsigned i = 0; i < 4096; i++) t += page[i];
    printf("bss %u %u %lu %lu %d %d\n", s, t, (unsigned long)line % 64, (unsigned long)page % 4096, one, other[0]);
    return t + zero;
}
