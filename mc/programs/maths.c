#include <complex.h>
#include <math.h>
#include <stdio.h>
static double (*const table[])(double) = {sin, cos, exp, sqrt, floor, log1p, cbrt};
double (*current)(double, double) = pow;
int mod_maths(int x) {
    double s = 0;
    for (int i = 0; i < 7; i++) s = s / 2 + table[i](x + 0.25 * i);
    double complex z = cexp(I * s);
    int e;
    double m = frexp(1000.0 * x, &e), ip, fp = modf(s, &ip);
    printf("maths %.6f %.6f %.6f %.4f %d %.6f %.6f %d\n", s, creal(z), cimag(z), m, e, fp, current(1.5, x), signgam);
    long double l = sqrtl(2.0L) * x;
    printf("%.8Lf %f %d\n", l, lgamma(x + 0.5), (int)lrint(fmod(x * 7.5, 4)));
    return (int)(s * 100) + e;
}
