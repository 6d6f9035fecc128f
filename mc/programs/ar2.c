int ar_first(int);
int ar_second(int x) { return x > 3 ? ar_first(x - 3) * 2 : x; }
