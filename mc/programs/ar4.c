// needed by nobody
#include <stdio.h>
__attribute__((constructor)) static void never(void) { printf("this member is not needed\n"); }
int ar_unused(void) { return 1; }
