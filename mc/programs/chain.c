#include <stdio.h>
extern int own_count; extern char own_text[10];
int own_add(int, int);
extern int two_table[8], two_state; extern int (*two_callback)(int);
int two_see(void); void two_poke(int); int two_same(int (*)(int, int), int *, const char *); int two_call(int); int (*two_pick(int))(int);
static int cb(int x) { return x * 7 + two_table[3]; }
int (*keep[])(int) = {two_call, cb};
int mod_chain(int x) {
    int before = two_see();
    two_poke(x);
    own_count += 2;
    two_callback = cb;
    int a = two_see(), b = two_same(own_add, &own_count, own_text), c = two_call(x), d = two_pick(1) == two_call && keep[0] == two_pick(1);
    printf("chain %d %d %d %d %d %d %.10s %d\n", a - before, b, c, d, two_state > 1000, two_table[3], own_text, two_table[7]);
    return b + c + d + two_pick(1)(3);
}
