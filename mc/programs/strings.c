#include <stdio.h>
#include <string.h>
static const char *const words[] = {"alpha", "beta", "gamma", "a longer string with several words in it", ""};
const char text[] = "text in rodata";
static const double consts[] = {1.5, -2.25, 3.125};
int mod_strings(int x) {
    char buf[100];
    int n = snprintf(buf, sizeof buf, "%s-%s-%d-%.3f", words[x % 5], text, x, consts[x % 3]);
    puts(buf);
    printf("%c%5d|%-6s|%08lx|%g\n", text[2], x, words[1], 0xdeadL, consts[1] * x);
    return n + strlen(words[3]) + (strchr(text, 'r') - text);
}
