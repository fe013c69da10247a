// Constructs that the rule of C14 must (BAD) and must not (OK) report.
#include <utility>
namespace {
struct Agg { int a, b; };

class Plain {
public:
    Plain(int x) : m_x(x) {}
    int get_x() const { return m_x; }
    int get_y() const { return m_y; } // BAD
    void set_y(int y) { m_y = y; }
private:
    int m_x, m_y;
};

class Good {
public:
    Good(bool b) { if (b) m_x = 1; else set(2); }
    void set(int x) { m_x = x; }
    int get_x() const { return m_x; }
private:
    int m_x;
};

class Half {
public:
    Half(bool b) { if (b) m_x = 1; }
    int get_x() const { return m_x; } // BAD
private:
    int m_x;
};

class Implicit {
public:
    int get_x() const { return m_x; } // BAD
private:
    int m_x;
};

class Early {
public:
    Early() { m_x = m_y + 1; m_y = 2; } // BAD
private:
    int m_x, m_y;
};

class Parser {       // single shot: parse() assigns before it reads
public:
    int parse(const char* s) { m_curr = s; return next(); }
private:
    const char* m_curr;
    int next() { return *m_curr++; }
};

class Lazy {
public:
    Lazy() {}
    void reset() { m_a = 0; m_b = 0; }
    int get() const { return m_a + m_b; }
private:
    int m_a, m_b;
};

class Owner1 {
public:
    Owner1() { m_lazy.reset(); }
    int get() { return m_lazy.get(); }
private:
    Lazy m_lazy;
};

class Owner2 {
public:
    Owner2() {}
    int get() { return m_lazy.get(); } // BAD
private:
    Lazy m_lazy;
};

int local_1(bool c) { Agg a; if (c) a.a = 1; a.b = 2; return a.a + a.b; } // BAD
int local_2(bool c) { Agg a; if (c) a.a = 1; else a.a = 3; a.b = 2; return a.a + a.b; }
Agg local_3(bool c) { Agg a; a.a = 1; if (c) a.b = 2; return a; } // BAD
Agg local_4() { Agg a; a.a = 1; a.b = 2; return a; }
int local_5() { Agg a {}; return a.a; }
void fill(Agg& a) { a = { 1, 2 }; }
int local_6() { Agg a; fill(a); return a.a; }
int local_7(bool c) { Agg a; if (!c) throw 1; a.a = 1; return a.a; }
int local_8() { Agg a; for (int i = 0; i < 3; ++i) { if (i > 0 && a.a > 2) break; a.a = i; } return 0; } // BAD
}
int use()
{
    Agg g; g = { 1, 2 };
    return Plain(1).get_x() + Plain(1).get_y() + Good(true).get_x() + Half(true).get_x() + Implicit().get_x() + (Early(), 0) + Parser().parse("a") + Owner1().get() + Owner2().get() +
        local_1(true) + local_2(true) + local_3(true).a + local_4().b + local_5() + local_6() + local_7(true) + local_8() + g.a;
}
