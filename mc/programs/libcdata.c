#include <stdio.h>
#include <stdlib.h>
#include <unistd.h>
#include <getopt.h>
extern char **environ;
extern char **__environ;
FILE **const outs[] = {&stdout, &stderr};
int mod_libcdata(int x) {
    fprintf(stdout, "libcdata %d\n", x);
    fflush(*outs[0]);
    setenv("DLD_MODULE", "value", 1);
    int found = 0;
    for (char **e = environ; *e; e++) found += **e == 'D' && (*e)[4] == 'M';
    char *argv[] = {"p", "-a", "-b", "arg", "rest", 0};
    int c, s = 0;
    optind = 1;
    while ((c = getopt(5, argv, "ab:")) != -1) s = s * 7 + c + (optarg ? optarg[0] : 0);
    fprintf(*outs[0], "%d %d %d %d\n", found, environ == __environ, optind, s);
    return found + optind + (stdout != stderr) + (stdin != stdout);
}
