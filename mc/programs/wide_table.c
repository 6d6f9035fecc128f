// hundreds of functions, strings and imported functions behind tables
#include <ctype.h>
#include <math.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
#include <wctype.h>
#define F(n) static int f##n(int x) { return x * n + (x ^ n); } const char *name##n = "name " #n;
#define D(m, n) m(n##0) m(n##1) m(n##2) m(n##3) m(n##4) m(n##5) m(n##6) m(n##7) m(n##8) m(n##9)
#define H(m, n) D(m, n##0) D(m, n##1) D(m, n##2) D(m, n##3) D(m, n##4) D(m, n##5) D(m, n##6) D(m, n##7) D(m, n##8) D(m, n##9)
H(F, 1) H(F, 2) H(F, 3)
#define T(n) f##n,
static int (*fs[])(int) = {H(T, 1) H(T, 2) H(T, 3)};
#define N(n) &name##n,
static const char **const ns[] = {H(N, 1) H(N, 2) H(N, 3)};
static int (*is[])(int) = {isalpha, isdigit, isspace, isupper, islower, isalnum, ispunct, iscntrl, isgraph, isprint, isxdigit, isblank, toupper, tolower, abs};
static void *imported[] = {strlen, strcpy, strcat, strcmp, strchr, strrchr, strstr, strtok, strdup, memcpy, memset, memcmp, memchr, malloc, calloc, realloc, free, atoi, atol, atof, strtol, strtoul, strtod, qsort, bsearch, rand, srand, exit, abort, getenv, setenv, system, puts, putchar, fopen, fclose, fread, fwrite, fseek, ftell, fflush, sprintf, snprintf, sscanf, perror, remove, rename, getpid, getuid, read, write, close, lseek, isatty, sleep, iswalpha, towupper};
int mod_wide_table(int x) {
    int s = 0;
    for (unsigned i = 0; i < sizeof fs / sizeof *fs; i++) s = s * 5 + fs[i](x) + (*ns[i])[7];
    for (unsigned i = 0; i < sizeof is / sizeof *is; i++) for (int c = 0; c < 128; c += 9) s += is[i](c) != 0;
    int distinct = 0, n = sizeof imported / sizeof *imported;
    for (int i = 0; i < n; i++) { int j; for (j = 0; j < i && imported[j] != imported[i]; j++); distinct += i == j; }
    size_t (*len)(const char *) = imported[0];
    printf("wide_table %d %d %s %d\n", s, distinct, *ns[123], (int)len("hello"));
    return s + distinct + (imported[12] == (void *)memchr) + (imported[9] == (void *)memcpy);
}
