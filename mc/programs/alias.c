#include <stdio.h>
int real_value = 5;
extern int alias_value __attribute__((alias("real_value")));
int real_fn(int x) { return x + real_value; }
int alias_fn(int) __attribute__((alias("real_fn")));
int weak_fn(int) __attribute__((weak, alias("real_fn")));
__attribute__((visibility("hidden"))) int hidden = 9;
__attribute__((visibility("protected"))) int guarded(int x) { return x - hidden; }
int mod_alias(int x) {
    alias_value += x;
    printf("alias %d %d %d %d\n", real_value, alias_fn(1), weak_fn(2), &alias_value == &real_value);
    return guarded(real_value);
}
