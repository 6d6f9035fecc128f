#include <stdio.h>
int ar_first(int); int ar_second(int);
extern int ar_data;
int mod_archive(int x) { printf("archive %d %d\n", ar_first(x), ar_data); return ar_second(x); }
