#include "cxx.h"
int Shape::alive = 0;
Shape::Shape(int i) : id(i) { alive++; }
Shape::~Shape() { alive--; }
const char *Shape::name() const { return "shape"; }
namespace {
struct Circle : Shape {
    Ring<long, 2> r;
    Circle(int a) : Shape(-a) { r.next() = a; }
    int area() const override { return 3 * r.sum() * r.sum(); }
    const char *name() const override { return which(); }
};
struct Both : Circle {
    Ring<int, 4> more;
    Both(int a) : Circle(a) { more.next() = a; shared_inline++; }
    int area() const override { return Circle::area() + more.sum() + counter(); }
    ~Both() override { shared_inline += 10; }
};
}
Shape *make(int kind, int n) {
    switch (kind) {
    case 0: return new Shape(n);
    case 1: return new Circle(n);
    default: return new Both(n);
    }
}
