#include <stdio.h>
struct node { int v; struct node *next; const char *name; };
extern struct node n3;
static struct node n1 = {1, &n3, "one"};
struct node n2 = {2, &n1, "two"};
struct node n3 = {3, 0, "three"};
int numbers[5] = {10, 20, 30, 40, 50};
int *middle = &numbers[2];
char *tail = (char *)&numbers[4] + 3;
long big = 0x123456789abcdefL;
static short counter = 5;
int mod_data(int x) {
    int s = 0;
    for (struct node *n = &n2; n; n = n->next) { printf("data %s\n", n->name); s = s * 10 + n->v; }
    counter += x;
    middle[-1] += counter;
    printf("data %d %d %d %lx %d\n", *middle, middle[-1], (int)(tail - (char *)numbers), big, counter);
    return s + numbers[1];
}
