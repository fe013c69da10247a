// Constructs that the rule of C24 must (BAD) and must not (OK) report.
#include <archon/math/vector.hpp>
#include <algorithm>
namespace {
struct Size { int width, height; };
struct Pos { int x, y; };
struct Box { Pos pos; Size size; };
struct Rgb { int red, green, blue; };

void f1(Size& s, int width, int height) { s.width = width; s.height = height; }
void f2(Size& s, int width, int height) { s.width = width; s.height = width; (void)height; } // BAD
int f3(const Box& b) { return b.pos.x + b.size.width; }
int f4(const Box& b) { return b.pos.x + b.size.height; } // BAD
bool f5(const Box& b, int x, int y) { return x < b.pos.x + b.size.width && y < b.pos.y + b.size.height; }
bool f6(const Box& b, int x) { return x < b.size.height; } // BAD
int f7(const Box& b, int y) { return y * b.size.width + b.pos.x; }
void f8(Rgb& a, const Rgb& b) { a.red = b.red; a.green = b.green; a.blue = b.green; } // BAD
void f9(Rgb& a) { a.green = a.red; }
void draw(int x, int y, int w, int h);
void f10(const Box& b) { draw(b.pos.x, b.pos.y, b.size.width, b.size.height); }
void f11(const Box& b) { draw(b.pos.x, b.pos.y, b.size.height, b.size.width); } // BAD
Size f12(int w, int h) { return { h, w }; } // BAD
Size f13(int w, int h) { return { w, h }; }
void f14(int horz_stride, int width) { int vert_stride = horz_stride * width; (void)vert_stride; }
int f15(int left, int width) { int right = left + width; return right; }
int f16(int left) { int right = left; return right; } // BAD
double f17(archon::math::Vector2 size, int width, int height) { size[0] = width; size[1] = height; return size[0]; }
double f18(archon::math::Vector2 size, int width, int height) { size[0] = height; (void)width; return size[0]; } // BAD
int f19(int x, const Size& s) { int end_x = std::min(x + 1, s.height); return end_x; } // BAD
bool f20(const Rgb& a) { return a.red == a.green; }
}
void draw_(int); 
int use()
{
    Size s; Rgb c; Box b = {};
    f1(s, 1, 2); f2(s, 1, 2); f8(c, c); f9(c); f10(b); f11(b); f14(1, 2);
    return f3(b) + f4(b) + f5(b, 1, 2) + f6(b, 1) + f7(b, 1) + f12(1, 2).width + f13(1, 2).width + f15(1, 2) + f16(1) + int(f17({}, 1, 2)) + int(f18({}, 1, 2)) + f19(1, s) + f20(c);
}
