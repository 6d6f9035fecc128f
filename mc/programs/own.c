#include <stdio.h>
int own_add(int, int); int own_apply(int (*)(int), int); int own_weak(int) __attribute__((weak)); int own_none(int) __attribute__((weak));
int (*own_get(void))(int, int); int own_protected(int); int own_protected2(int);
static int triple(int x) { return 3 * x; }
int mod_own(int x) {
    int (*f)(int, int) = own_add;
    printf("own %d %d %d %d\n", own_add(x, 2), own_apply(triple, x), own_weak ? own_weak(x) : -1, own_none != 0);
    printf("protected %d %d\n", own_protected(x), own_protected2(x));
    return f(x, 1) + (own_get() == own_add);
}
