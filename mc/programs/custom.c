// ends in an unusual way
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <unistd.h>
static void report(void) { static char line[] = "custom: at exit\n"; fflush(stdout); if (write(1, line, strlen(line)) < 0) _exit(99); }
int mod_custom(int x) {
    atexit(report);
    if (x == 1000) abort();
    fputs("custom\n", stdout);
    return (int)sizeof(void *) + x;
}
