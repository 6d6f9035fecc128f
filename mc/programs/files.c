#include <locale.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <time.h>
#include <wchar.h>
static int fmt(char *b, size_t n, const char *f, ...) { va_list a; va_start(a, f); int r = vsnprintf(b, n, f, a); va_end(a); return r; }
int mod_files(int x) {
    char buf[200], line[40];
    FILE *f = tmpfile();
    if (!f) return -1;
    for (int i = 0; i < 20; i++) fprintf(f, "%d:%x\n", i * x, i);
    rewind(f);
    int n = 0, a, b, s = 0;
    while (fgets(line, sizeof line, f)) { n++; if (sscanf(line, "%d:%x", &a, &b) == 2) s += a - b; }
    fseek(f, -3, SEEK_END);
    int c = fgetc(f);
    fclose(f);
    time_t t = 86400 * 365;
    struct tm *tm = gmtime(&t);
    strftime(buf, sizeof buf, "%Y-%m-%d", tm);
    wchar_t w[20];
    swprintf(w, 20, L"%d-%ls", x, L"wide");
    int k = fmt(buf + 20, 100, "%5.2f|%-6s|%+d|%e", x / 3.0, "ab", x, 12345.678);
    div_t d = div(100 + x, 7);
    printf("files %d %d %c %s %d %s %d %d %d\n", n, s, c, buf, (int)wcslen(w), buf + 20, k, d.quot, d.rem);
    return n + s + k + (localeconv() != 0);
}
