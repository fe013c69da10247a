int f(bool b) { int x; if (b) x = 1; return x; } // BAD
int g() { int x; return x; } // BAD
int h(bool b) { int x; if (b) x = 1; else x = 2; return x; }
struct S { int a; int b; S() : a(b), b(1) {} }; // BAD
S s;
