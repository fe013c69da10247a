// Conversions that C21 must report (`BAD`), and ones that it must not.
#include <cstddef>
#include <vector>
int a(std::size_t n) { int i = n; return i; } // BAD
int b(double d) { return d; } // BAD
bool c(int i, const std::vector<int>& v) { return i < v.size(); } // BAD
unsigned char d(int i) { return i; } // BAD
int e(std::size_t n) { return int(n); }
unsigned char f(int i) { return i & 0xFF; }
bool g(int i, const std::vector<int>& v) { return std::size_t(i) < v.size(); }
bool h(unsigned i) { return i >= 0; } // BAD
