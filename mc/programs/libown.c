int own_count = 40;
char own_text[10] = "shared";
double own_array[4] = {1.0, 2.5, 0, 9.75};
int own_real = 99;
extern int own_alias __attribute__((weak, alias("own_real")));
int *own_pointer = &own_count;
const char *own_name = "libown";
int own_add(int a, int b) { return a + b + own_count % 2; }
int own_apply(int (*f)(int), int x) { return f(f(x)); }
__attribute__((weak)) int own_weak(int x) { return x + 5; }
int (*own_get(void))(int, int) { return own_add; }
void own_bump(void) { own_count++; own_real++; }
static int pick_a(int x) { return x + 100; }
static int pick_b(int x) { return x + 200; }
static void *resolve(void) { return pick_b; }
static void *resolve2(void) { return pick_a; }
int own_ifunc(int) __attribute__((ifunc("resolve")));
int own_ifunc2(int) __attribute__((ifunc("resolve2")));
int own_ifunc3(int) __attribute__((ifunc("resolve2")));
__attribute__((visibility("protected"))) int own_protected(int x) { return x * 5; }
__attribute__((visibility("protected"))) int own_protected2(int x) { return own_protected(x) + 1; }
