#include <stdio.h>
extern int own_count; extern char own_text[10]; extern double own_array[4]; extern int own_alias; extern int *own_pointer; extern const char *own_name;
void own_bump(void);
int *address = &own_count;
int mod_owndata(int x) {
    own_bump();
    own_count += x;
    own_bump();
    own_array[2] = own_array[1] * 2;
    printf("owndata %d %d %.10s %.1f %d %d %s\n", own_count, *address, own_text, own_array[2], own_alias, own_pointer == &own_count, own_name);
    return *address + own_text[3];
}
