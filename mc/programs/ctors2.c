#include <stdio.h>
extern int before_main __attribute__((weak));
__attribute__((constructor)) static void first(void) { printf("ctor other %d\n", &before_main ? before_main : -1); }
__attribute__((destructor)) static void last(void) { printf("dtor other\n"); fflush(stdout); }
