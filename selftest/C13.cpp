// Constructs that the rule of C13 must (BAD) and must not (OK) report.
#include <archon/core/enum.hpp>
#include <string>
#include <string_view>
namespace {
enum class Fruit { apple, pear, plum };
enum class Tint { red, green, blue, cyan, white };

int f1(Fruit f) { switch (f) { case Fruit::apple: return 1; case Fruit::pear: return 2; case Fruit::plum: return 3; } return 0; }
int f2(Fruit f) { switch (f) { case Fruit::apple: return 1; case Fruit::pear: return 2; default: break; } return 0; } // BAD
const char* f3(Fruit f)
{
    switch (f) {
        case Fruit::apple: return "Apple";
        case Fruit::pear: return "Pear";
        case Fruit::plum: return "Plum";
    }
    return {};
}
std::string_view f4(Fruit f)
{
    switch (f) { // BAD
        case Fruit::apple: return "An apple";
        case Fruit::pear: return "An apple";
        case Fruit::plum: return "A plum";
    }
    return {};
}
std::string f5(Fruit f)
{
    switch (f) { // BAD
        case Fruit::apple: return "apple";
        case Fruit::pear: return "plum";
        case Fruit::plum: return "pear";
    }
    return {};
}
void do_apple(); void do_pear(); void do_plum();
void f6(Fruit f) { switch (f) { case Fruit::apple: do_apple(); break; case Fruit::pear: do_pear(); break; case Fruit::plum: do_plum(); break; } }
void f7(Fruit f) { switch (f) { case Fruit::apple: do_apple(); break; case Fruit::pear: do_pear(); break; case Fruit::plum: do_pear(); break; } } // BAD
const char* f8(Tint t)
{
    switch (t) {
        case Tint::red: return "\033[31m";
        case Tint::green: return "\033[32m";
        case Tint::blue: return "\033[34m";
        case Tint::cyan: return "\033[36m";
        case Tint::white: return "\033[37m";
    }
    return {};
}
std::string f9(Tint t)
{
    switch (t) { // OK
        case Tint::red: return "31";
        case Tint::green: return "32";
        case Tint::blue: return "34";
        case Tint::cyan: return "36";
        case Tint::white: return "37";
    }
    return {};
}
struct Assoc { int value; std::string_view name; };
constexpr Assoc t1[] = { { int(Fruit::apple), "apple" }, { int(Fruit::pear), "pear" }, { int(Fruit::plum), "plum" } };
constexpr Assoc t2[] = { { int(Fruit::apple), "apple" }, { int(Fruit::pear), "pear" } }; // BAD
constexpr Assoc t3[] = { { int(Fruit::apple), "apple" }, { int(Fruit::pear), "plum" }, { int(Fruit::plum), "pear" } }; // BAD
constexpr Assoc t4[] = { { int(Fruit::apple), "a" }, { int(Fruit::pear), "a" }, { int(Fruit::plum), "b" } }; // BAD
class Log {
public:
    void put(Fruit, int);
    void apple(int x) { put(Fruit::apple, x); }
    void pear(int x) { put(Fruit::plum, x); } // BAD
    void open(int x) noexcept;
    void shut(int x) noexcept;
};
class Wrap {
public:
    void open(int x) { m_log.open(x); }
    void shut(int x) { m_log.open(x); } // BAD
    void begin(int x) { m_log.open(x); }
private:
    Log m_log;
};
class WindowEventHandler { public: virtual bool on_keydown(int); virtual bool on_keyup(int); virtual ~WindowEventHandler(); };
enum { KeyPress = 2, KeyRelease = 3 };
bool g1(WindowEventHandler& h, int type)
{
    switch (type) {
        case KeyPress:
        case KeyRelease:
            if (type == KeyPress)
                return h.on_keydown(type);
            return h.on_keyup(0);
    }
    return true;
}
bool g2(WindowEventHandler& h, int type)
{
    switch (type) {
        case KeyPress:
        case KeyRelease:
            if (type == KeyPress) {
                return h.on_keydown(type);
            }
            else {
                return h.on_keyup(type);
            }
    }
    return true;
}
bool g3(WindowEventHandler& h, int type)
{
    switch (type) {
        case KeyPress:
        case KeyRelease:
            return (type != KeyPress ?
                    h.on_keydown(type) : // BAD
                    h.on_keyup(type)); // BAD
    }
    return true;
}
bool g4(WindowEventHandler& h, int type)
{
    switch (type) {
        case KeyPress:
        case KeyRelease: {
            bool press = (type == KeyPress);
            if (!press)
                break;
            return h.on_keydown(type);
        }
    }
    return true;
}
bool g5(WindowEventHandler& h, int type, bool b)
{
    switch (type) {
        case KeyPress:
        case KeyRelease:
            if (b)
                return h.on_keydown(type); // BAD
    }
    return true;
}
}
namespace {
class Part { public: virtual void a(int) {} virtual void b(int) {} virtual void c(int) {} virtual ~Part() = default; };
class Both final : public Part {
public:
    Both(Part& x, Part& y) : m_x(x), m_y(y) {}
    void a(int i) override { m_x.a(i); m_y.a(i); }
    void b(int i) override { m_x.b(i); m_y.b(i); }
    void c(int i) override { m_x.c(i); m_y.c(i); }
private:
    Part& m_x; Part& m_y;
};
class Both2 final : public Part {
public:
    Both2(Part& x, Part& y) : m_x(x), m_y(y) {}
    void a(int i) override { m_x.a(i); m_y.a(i); }
    void b(int i) override { m_x.b(i); m_y.b(i); }
    void c(int i) override { m_x.b(i); m_y.b(i); } // BAD
private:
    Part& m_x; Part& m_y;
};
}
int use(int i)
{
    Part pa; Both bo(pa, pa); bo.a(i); Both2 b2(bo, pa); b2.c(i); Wrap w; w.open(i); w.shut(i); w.begin(i); Log l; l.apple(i); l.pear(i); f6(Fruit(i)); f7(Fruit(i));
    WindowEventHandler* h = nullptr;
    return f1(Fruit(i)) + f2(Fruit(i)) + int(f3(Fruit(i))[0]) + int(f4(Fruit(i)).size() + f5(Fruit(i)).size()) + int(f8(Tint(i))[0]) + int(f9(Tint(i)).size()) + t1[i].value + t2[i].value + t3[i].value + t4[i].value + g1(*h, i) + g2(*h, i) + g3(*h, i) + g4(*h, i) + g5(*h, i, i > 1);
}
