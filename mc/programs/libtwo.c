// a library that needs another one, and shares its objects and functions with the program
#include <stdio.h>
extern int own_count; extern char own_text[10]; extern int own_alias;
int own_add(int, int);
int (*own_get(void))(int, int);
int two_table[8] = {1, 2, 3, 4, 5, 6, 7, 8};
int two_state;
int (*two_callback)(int);
__attribute__((constructor)) static void up(void) { two_state = 1000 + own_count; }
__attribute__((destructor)) static void down(void) { printf("libtwo ends %d\n", two_state); fflush(stdout); }
int two_see(void) { return own_count; }
void two_poke(int x) { own_count += x; own_text[0] = 'S'; two_table[3] += x; }
int two_same(int (*f)(int, int), int *p, const char *t) { return (f == own_add) + 2 * (f == own_get()) + 4 * (p == &own_count) + 8 * (t == own_text); }
int two_call(int x) { return two_callback ? two_callback(x) : -1; }
int (*two_pick(int k))(int) { return k ? two_call : 0; }
int own_ifunc(int);
int (*two_ifunc(void))(int) { return own_ifunc; }
int two_ifunc_is(int (*f)(int)) { return f == own_ifunc; }
