#include <stdio.h>
static int op(int k, int a, int b) {
    switch (k) {
    case 0: return a + b;
    case 1: return a - b;
    case 2: return a * b;
    case 3: return a ^ b;
    case 4: return a & b;
    case 5: return a | b;
    case 6: return a << (b & 7);
    case 7: return printf("seven\n");
    case 8: return a / (b | 1);
    default: return -1;
    }
}
static int f0(int x) { return x; }
static int f1(int x) { return x * 3; }
static int f2(int x) { return x - 7; }
static int (*const fs[])(int) = {f0, f1, f2, f1, f0};
int (*writable[])(int) = {f2, f0};
float scale = 2.5f;
int mod_tables(int x) {
    int s = 0;
    for (int i = 0; i < 10; i++) s = s * 3 + op((i + x) % 10, i, x);
    for (int i = 0; i < 5; i++) s += fs[i](x);
    writable[1] = f1;
    double d = scale * x + 0.5;
    printf("tables %d %.2f\n", s, d);
    return s + writable[0](x) + writable[1](x) + (int)d;
}
