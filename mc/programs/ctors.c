#include <stdio.h>
#include <stdlib.h>
static int order;
int before_main;
__attribute__((constructor)) static void first(void) { before_main = ++order; printf("ctor first\n"); }
__attribute__((constructor)) static void second(void) { before_main += 10 * ++order; printf("ctor second\n"); }
__attribute__((destructor)) static void last(void) { printf("dtor last\n"); fflush(stdout); }
__attribute__((destructor)) static void prior(void) { printf("dtor prior\n"); fflush(stdout); }
static void bye(void) { printf("atexit\n"); }
int mod_ctors(int x) { atexit(bye); return before_main + x; }
