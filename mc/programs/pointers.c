// The address of a function is one and the same for the program, its libraries and dlsym, also if the function is an indirect one.
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <dlfcn.h>
int own_add(int, int); int own_ifunc(int); int own_ifunc2(int); int own_ifunc3(int);
int two_call(int); int two_see(void);
int (*two_ifunc(void))(int); int two_ifunc_is(int (*)(int));
typedef size_t len_t(const char *);
typedef char *chr_t(const char *, int);
static len_t *const volatile lens[] = {strlen, strlen};
static void *names[] = {(void *)own_add, (void *)two_see, (void *)strlen, (void *)puts, (void *)own_ifunc, (void *)qsort};
static const char *const texts[] = {"own_add", "two_see", "strlen", "puts", "own_ifunc", "qsort"};
static chr_t *volatile chr;
int mod_pointers(int x) {
    int same = 0;
    for (int i = 0; i < 6; i++) {
        void *p = dlsym(RTLD_DEFAULT, texts[i]);
        same = same * 2 + (p == names[i]);
    }
    chr = strchr;
    int (*f)(int) = two_ifunc();
    int (*volatile g)(int) = own_ifunc2;
    int (*d)(int) = (int (*)(int))dlsym(RTLD_DEFAULT, "own_ifunc2"), (*e)(int) = (int (*)(int))dlsym(RTLD_DEFAULT, "own_ifunc3");
    printf("pointers %d %d %d %zu %s %d %d\n", same, two_ifunc_is(own_ifunc), f == own_ifunc, lens[1]("four"), chr("abcdef", 'd'), own_ifunc(x), f(x));
    printf("more %d %d %d %d %d\n", g == d, g(x), d(x), e(x), own_ifunc3(x));
    return same + two_call(x) + own_ifunc(x);
}
