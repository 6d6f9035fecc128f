#include "cxx.h"
void *operator new(size_t n) { return malloc(n); }
void operator delete(void *p) noexcept { free(p); }
void operator delete(void *p, size_t) noexcept { free(p); }
int trace = 3;
namespace {
struct Square : Shape {
    int a;
    Square(int a) : Shape(a), a(a) {}
    int area() const override { return a * a; }
};
// silent: the order of an archive's members, so of their constructors, is a linker's own choice
struct Init { int seen; Init() { seen = trace++; } ~Init() { seen = trace--; } } init;
Ring<int, 4> ring;
int (Shape::*member)() const = &Shape::area;
}
const Shape &global_shape = *new Square(4);
extern "C" int mod_cxx(int x) {
    int s = 0;
    for (int k = 0; k < 3; k++) {
        Shape *p = make(k, x + k);
        s = s * 3 + (p->*member)();
        printf("%s %d %d ", p->name(), p->area(), p->id);
        delete p;
    }
    ring.next() = x;
    ring.next() = counter();
    Ring<int, 4> local;
    shared_inline += x;
    s += twice([&](int v) { return v + ring.sum(); }, x) + Ring<int, 4>::made + Ring<long, 2>::made;
    printf("%s %d %d %d %d\n", which(), s, Shape::alive, shared_inline, global_shape.area());
    return s + init.seen;
}
