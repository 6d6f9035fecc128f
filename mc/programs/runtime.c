#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <setjmp.h>
#include <signal.h>
#include <errno.h>
#include <math.h>
static jmp_buf env;
static volatile sig_atomic_t got;
static void on(int s) { got = s; }
static void jump(int n) { if (n) jump(n - 1); else longjmp(env, 5); }
int mod_runtime(int x) {
    int *p = malloc(sizeof *p * 1000);
    for (int i = 0; i < 1000; i++) p[i] = i * x;
    p = realloc(p, sizeof *p * 5000);
    int s = p[999];
    free(p);
    int r = setjmp(env);
    if (!r) jump(4);
    signal(SIGUSR1, on);
    raise(SIGUSR1);
    errno = 0;
    FILE *f = fopen("/nonexistent/file", "r");
    int e = errno;
    char buf[64];
    strcpy(buf, "copy"); strcat(buf, "/cat"); memmove(buf + 1, buf, 5);
    printf("runtime %d %d %d %d %d %s %ld\n", s, r, got == SIGUSR1, f == 0, e == ENOENT, buf, strtol("123abc", 0, 10));
    return s + r + atoi("17") + abs(-x);
}
