// a byte code interpreter with computed jumps, its table in read-only data that needs relocation
#include <stdio.h>
static const unsigned char program[] = {0, 5, 0, 7, 1, 3, 0, 3, 2, 3, 5, 4, 0, 1, 6, 4, 9};
static int run(const unsigned char *p, int x) {
    static void *const ops[] = {&&push, &&add, &&mul, &&dup, &&out, &&neg, &&sub, &&stop, &&stop, &&stop};
    int st[16], n = 0;
    st[n++] = x;
    goto *ops[*p++];
push: st[n++] = *p++; goto *ops[*p++];
add: n--; st[n - 1] += st[n]; goto *ops[*p++];
mul: n--; st[n - 1] *= st[n]; goto *ops[*p++];
dup: st[n] = st[n - 1]; n++; goto *ops[*p++];
neg: st[n - 1] = -st[n - 1]; goto *ops[*p++];
sub: n--; st[n - 1] -= st[n]; goto *ops[*p++];
out: printf("%d ", st[n - 1]); goto *ops[*p++];
stop: printf("stop %d\n", n); return st[n - 1];
}
static int deltas(int i) {
    static const int d[] = {&&a - &&a, &&b - &&a, &&c - &&a};
    goto *(&&a + d[i % 3]);
a: return 10;
b: return 20;
c: return 30;
}
int mod_interp(int x) { return run(program, x) + deltas(x) + deltas(x + 1); }
