static int table[4] = {3, 1, 4, 1};
int ar_third(int x) { return table[x & 3]; }
