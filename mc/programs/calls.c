#include <stdio.h>
static int depth(int n) { return n <= 0 ? 1 : 1 + depth(n - 1); }
__attribute__((noinline)) int fib(int n) { return n < 2 ? n : fib(n - 1) + fib(n - 2); }
static int twice(int (*f)(int), int x) { return f(f(x)); }
static int inc(int x) { return x + 1; }
static int dbl(int x) { return x * 2; }
int mod_calls(int x) {
    int (*volatile p)(int) = x & 1 ? inc : dbl;
    printf("calls %d %d %d\n", depth(x), fib(10), twice(p, x));
    return fib(x) + twice(inc, x) + twice(dbl, x);
}
