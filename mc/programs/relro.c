#include <stdio.h>
struct ops { int (*get)(int); const char *name; const struct ops *next; };
static int g1(int x) { return x + 1; }
static int g2(int x) { return x + 2; }
extern const struct ops o2;
const struct ops o1 = {g1, "o1", &o2};
const struct ops o2 = {g2, "o2", 0};
static const struct ops *const all[] = {&o2, &o1};
__attribute__((section(".mydata"))) int mine = 21;
__attribute__((section(".mytext"))) int elsewhere(int x) { return x * mine; }
__attribute__((section(".myrodata"))) const int fixed[3] = {4, 5, 6};
int mod_relro(int x) {
    int s = 0;
    for (int i = 0; i < 2; i++)
        for (const struct ops *o = all[i]; o; o = o->next) { s = s * 5 + o->get(x); printf("%s ", o->name); }
    printf("%d %d\n", elsewhere(x), fixed[2]);
    return s + fixed[1];
}
