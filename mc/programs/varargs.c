#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
static double sum(int n, ...) {
    va_list ap;
    double s = 0;
    va_start(ap, n);
    for (int i = 0; i < n; i++) s += i & 1 ? va_arg(ap, double) : va_arg(ap, int);
    va_end(ap);
    return s;
}
__attribute__((format(printf, 1, 2))) static int say(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    int r = vprintf(f, ap);
    va_end(ap);
    return r;
}
int mod_varargs(int x) { return say("varargs %.2f %s\n", sum(6, 1, 2.5, 3, 4.5, x, 6.0), getenv("NOT_SET") ? "set" : "unset"); }
