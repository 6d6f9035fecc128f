// the same local names as in locals2.c
#include <stdio.h>
static int value = 1;
static int helper(int x) { static int calls; return x + value + ++calls; }
static const char *label = "locals one";
int other_locals(int);
int mod_locals(int x) {
    int a = helper(x), b = helper(x);
    printf("%s %d %d\n", label, a, b);
    return other_locals(x) + a + b;
}
