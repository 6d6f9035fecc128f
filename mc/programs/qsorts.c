#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <ctype.h>
static int cmp(const void *a, const void *b) { return strcmp(*(char *const *)a, *(char *const *)b); }
static int (*const chars[])(int) = {toupper, tolower, isdigit};
size_t (*len)(const char *) = strlen;
int (*compare)(const char *, const char *);
int mod_qsorts(int x) {
    const char *w[] = {"pear", "apple", "fig", "quince", "lemon"};
    qsort(w, 5, sizeof *w, cmp);
    for (int i = 0; i < 5; i++) printf("%s ", w[i]);
    compare = strcmp;
    int same = compare == strcmp && chars[0] == toupper && len == strlen;
    printf("%c%c%d %d %zu\n", chars[0]('a' + x % 20), chars[1]('Q'), !!chars[2]('7'), same, len(w[x % 5]));
    return same + compare(w[0], w[1]) < 0;
}
