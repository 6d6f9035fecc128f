#include <stdio.h>
static int value = 100;
static int helper(int x) { static int calls; return x * value + ++calls; }
static const char *label = "locals two";
int other_locals(int x) {
    int a = helper(x);
    value++;
    printf("%s %d %d\n", label, a, helper(x));
    return a;
}
