// Calls whichever modules are part of the program.
#include <stdio.h>
#define MODULES M(calls) M(data) M(bss) M(strings) M(libcdata) M(ctors) M(tables) M(qsorts) M(weakdef) M(strong) M(archive) M(own) M(owndata) M(runtime) M(wide) M(relro) M(varargs) M(locals) M(alias) M(custom) M(threads) M(interp) M(cxx) M(files) M(maths) M(big) M(wide_table) M(asm1) M(chain) M(pointers)
#define M(n) extern int mod_##n(int) __attribute__((weak));
MODULES
#undef M
#define M(n) {#n, mod_##n},
static const struct { const char *name; int (*f)(int); } table[] = { MODULES };
int main(int argc, char **argv) {
    unsigned h = 7;
    printf("main %d %s\n", argc, argv[1] ? argv[1] : "-");
    for (unsigned i = 0; i < sizeof table / sizeof *table; i++)
        if (table[i].f) {
            int r = table[i].f(i + argc);
            printf("%s: %d\n", table[i].name, r);
            h = h * 31 + r;
        }
    return h & 0x3f;
}
