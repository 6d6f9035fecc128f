#include <stdio.h>
#include <stdlib.h>
extern int trace;
struct Shape {
    int id;
    static int alive;
    Shape(int i);
    virtual ~Shape();
    virtual int area() const { return 0; }
    virtual const char *name() const;
};
template <class T, int N> struct Ring {
    T v[N];
    int at = 0;
    static int made;
    Ring() { made++; for (int i = 0; i < N; i++) v[i] = T(); }
    T &next() { at = (at + 1) % N; return v[at]; }
    int sum() const { int s = 0; for (auto &x : v) s += x; return s; }
};
template <class T, int N> int Ring<T, N>::made = 100;
inline int counter() { static int n = 7; return n += 2; }
inline const char *which() { static const char *w[] = {"one", "two", "three"}; return w[counter() % 3]; }
template <class F> int twice(F f, int x) { return f(f(x)); }
inline int shared_inline = 5;
Shape *make(int kind, int n);
extern const Shape &global_shape;
