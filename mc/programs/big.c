// large and strongly aligned data
#include <stdio.h>
#include <string.h>
#include <stdint.h>
#define ALIGNED(n) __attribute__((aligned(n)))
static char zero_a[3 << 20];
ALIGNED(4096) char page[5000] = {1, 2, 3};
ALIGNED(64) static char line[65];
ALIGNED(8192) static const int table[3000] = {[0] = 5, [2999] = 8};
ALIGNED(65536) static char far[10];
ALIGNED(128) int counts[33] = {[32] = 4};
char big_tail = 'z';
char zero_b[100001];
static const char *pointers[1000] = {[500] = page + 1, [999] = &big_tail};
int mod_big(int x) {
    int s = 0;
    for (size_t i = 0; i < sizeof zero_a; i += 4093) s += zero_a[i];
    for (size_t i = 0; i < sizeof zero_b; i++) s += zero_b[i];
    memset(zero_a, x, sizeof zero_a);
    memset(zero_b, x + 1, sizeof zero_b);
    memset(far, 7, sizeof far);
    memset(line, 6, sizeof line);
    s += (uintptr_t)page % 4096 + (uintptr_t)line % 64 + (uintptr_t)table % 8192 + (uintptr_t)far % 65536 + (uintptr_t)counts % 128;
    printf("big %d %d %d %d %d %d %c %d %d\n", s, page[2], page[4999], table[2999], counts[32], *pointers[500], *pointers[999], far[9], line[64]);
    return s + zero_a[12345] + zero_b[100000] + page[1] + big_tail;
}
