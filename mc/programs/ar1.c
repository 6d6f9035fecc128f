int ar_third(int); int ar_data = 77;
int ar_first(int x) { return ar_third(x) + 1; }
