#include <stdio.h>
__attribute__((weak, noinline)) int overridable(int x) { return x + 1; }
__attribute__((weak)) int wdata = 11;
__attribute__((weak)) int absent(int);
extern int absent_data __attribute__((weak));
int mod_weakdef(int x) {
    printf("weak %d %d %d %d\n", overridable(x), wdata, absent != 0, &absent_data != 0);
    return overridable(x) * wdata;
}
