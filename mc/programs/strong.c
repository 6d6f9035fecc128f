#include <stdio.h>
int overridable(int x) { return x * 100; }
int wdata = 13;
int mod_strong(int x) { printf("strong %d\n", overridable(x)); return wdata; }
