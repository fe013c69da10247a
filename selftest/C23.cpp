// Constructs that the rule of C23 must (BAD) and must not (OK) report.
#include <cstdlib>
#include <map>
#include <optional>
#include <string>
#include <vector>
#include <algorithm>
#include <ft2build.h>
#include FT_FREETYPE_H
namespace {
struct Base { virtual ~Base() = default; int a = 1; };
struct Derived : Base { int b = 2; };
struct Info { bool have_glx, have_xkb, have_xrandr; };
bool ready();

int f1(std::optional<int> o) { if (o) return *o; return 0; }
int f2(std::optional<int> o) { if (!o) return *o; return 0; } // BAD
int f3(std::optional<int> o) { return *o; } // BAD
int f4(std::optional<int> o) { if (!o.has_value()) o = 3; return *o; }
int f5(const std::map<int, int>& m) { auto i = m.find(3); return i->second; } // BAD
int f6(const std::map<int, int>& m) { auto i = m.find(3); if (i != m.end()) return i->second; return 0; }
int f7(const std::map<int, int>& m) { auto i = m.find(3); if (i == m.end()) return i->second; return 0; } // BAD
std::string f8() { const char* s = std::getenv("X"); return std::string(1, *s); } // BAD
std::string f9() { const char* s = std::getenv("X"); if (!s) return {}; return std::string(1, *s); }
int f10(Base* b) { return dynamic_cast<Derived*>(b)->b; } // BAD
int f11(Base* b) { auto d = dynamic_cast<Derived*>(b); return d ? d->b : 0; }
int f12(Base* b) { auto d = dynamic_cast<Derived*>(b); return !d ? d->b : 0; } // BAD
const int* pick(const std::vector<int>& v, std::size_t i) { if (i < v.size()) return &v[i]; return nullptr; }
int f13(const std::vector<int>& v) { return *pick(v, 3); } // BAD
int f14(const std::vector<int>& v) { const int* p = pick(v, 3); return p ? *p : 0; }
int f15(std::optional<int> a, std::optional<int> b) { if (a && b) return *a + *b; return 0; }
int f16(std::optional<int> a, std::optional<int> b) { if (a || b) return *a; return 0; } // BAD
int f17(std::optional<int> a) { bool good = a.has_value(); if (good) return *a; return 0; }
int f18() { int* p = nullptr; int x = 3; if (ready()) p = &x; return *p; } // BAD
void out(int*& p);
int f19() { int* p = nullptr; out(p); return *p; }
int f20(std::optional<int> o) { if (o) { o.reset(); return *o; } return 0; } // BAD
int f21(const std::vector<int>& v) { auto i = std::find(v.begin(), v.end(), 3); return *i; } // BAD
int f22(const std::vector<int>& v) { auto i = std::find(v.begin(), v.end(), 3); if (i == v.end()) return 0; return *i; }
int f23(std::optional<int> o) { while (!o) o = 1; return *o; }
bool has(const std::optional<int>& o) { return o.has_value(); }
int get(const std::optional<int>& o) { return *o; }
int get_2(const std::optional<int>& o) { return *o; } // BAD
int f24(std::optional<int> o) { if (has(o)) return *o; return 0; }
int f25(std::optional<int> o) { if (o) return get(o) + get_2(o); return 0; }
int f26(std::optional<int> o) { auto g = [&] { return *o; }; if (o) return g(); return 0; }
int f27(std::optional<int> o) { auto g = [&] { return *o; }; return g(); } // BAD
struct Lazy {
    std::optional<int> v;
    int h1() { if (v) return h2() + h3(); return 0; }
    int h2() { return *v; }
    int h3() { return *v; } // BAD
    int h4() { return h3(); }
};

// Capabilities
extern "C" { void XRRSelectInput(int); int glXCreateContext(); void XkbSetDetectableAutoRepeat(int); }
void g1(Info& i) { if (i.have_xrandr) XRRSelectInput(1); }
void g2(Info& i) { if (!i.have_xrandr) XRRSelectInput(1); } // BAD
void g3(Info& i) { if (i.have_glx) XRRSelectInput(1); } // BAD
void helper_a() { XRRSelectInput(1); }
void helper_b() { XRRSelectInput(1); } // BAD
void g4(Info& i) { if (i.have_xrandr) helper_a(); helper_b(); }
void make_a(bool gl) { if (gl) glXCreateContext(); }
void make_b(bool gl) { if (gl) glXCreateContext(); } // BAD
bool g5(Info& i, bool want)
{
    bool gl = false;
    if (want) {
        if (!i.have_glx)
            return false;
        gl = true;
    }
    make_a(gl);
    make_b(want);
    return true;
}
bool g6(Info& i) { if (!i.have_xkb) return false; XkbSetDetectableAutoRepeat(1); return true; }
void g7() { XkbSetDetectableAutoRepeat(1); } // BAD
void g8(FT_Face f) { if (FT_IS_SCALABLE(f)) FT_Set_Char_Size(f, 1, 1, 0, 0); }
void g9(FT_Face f) { if (!FT_IS_SCALABLE(f)) FT_Set_Char_Size(f, 1, 1, 0, 0); } // BAD
void g10(FT_Face f) { FT_Set_Char_Size(f, 1, 1, 0, 0); } // BAD

// Running selections
int h1(const std::vector<double>& v)
{
    double min = 0; int index = -1;
    for (int i = 0; i < int(v.size()); ++i) {
        if (index >= 0 && v[i] >= min) continue;
        min = v[i];
        index = i;
    }
    return index;
}
int h2(const std::vector<double>& v)
{
    double min = 0; int index = -1;
    for (int i = 0; i < int(v.size()); ++i) {
        if (index < 0 && v[i] >= min) continue; // BAD
        min = v[i];
        index = i;
    }
    return index;
}
int h3(const std::vector<double>& v)
{
    double min = 0; int index = -1;
    for (int i = 0; i < int(v.size()); ++i) {
        if (index == -1 || v[i] < min) {
            min = v[i];
            index = i;
        }
    }
    return index;
}
int h4(const std::vector<double>& v)
{
    double max = 0; int index = -1;
    for (int i = 0; i < int(v.size()); ++i) {
        if (v[i] > max) { // BAD
            max = v[i];
            index = i;
        }
    }
    return index;
}
}
int use(Info& i, FT_Face f, Base* b)
{
    std::vector<int> v; std::vector<double> w; std::map<int, int> m;
    g1(i); g2(i); g3(i); g4(i); g5(i, true); g6(i); g7(); g8(f); g9(f); g10(f);
    return f1({}) + f2({}) + f3({}) + f4({}) + f5(m) + f6(m) + f7(m) + int(f8().size() + f9().size()) + f10(b) + f11(b) + f12(b) + f13(v) + f14(v) + f15({}, {}) + f16({}, {}) + f17({}) + f18() + f19() + f20({}) + f21(v) + f22(v) + f23({}) + f24({}) + f25({}) + f26({}) + f27({}) + get_2({}) + Lazy().h1() + Lazy().h4() +
        h1(w) + h2(w) + h3(w) + h4(w);
}
