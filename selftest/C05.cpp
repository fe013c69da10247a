// Constructs that the rule of C05 must (BAD) and must not (OK) report.
#include <cstddef>
#include <system_error>
namespace {
int g;
bool try_step(int& x, std::error_code& ec) { if (g == 1) { ec = std::make_error_code(std::errc::io_error); return false; } x = g; return true; }

bool f1(int a, int& res) { if (a > 0) res = a; return true; } // BAD
bool f2(int a, int& res) { if (a > 0) { res = a; return true; } return false; }
bool f3(int& res, std::error_code& ec) { return try_step(res, ec); }
bool f4(int& res, std::error_code& ec) { if (try_step(res, ec)) return true; if (g == 7) return true; return false; } // BAD
bool f5(int& res, std::error_code& ec)
{
    int x;
    if (try_step(x, ec)) { // BAD
        res = x;
    }
    return false;
}
bool f6(int a, bool& is_b, int& b, int& c) { if (a == 1) { is_b = true; b = 7; return true; } is_b = false; c = 8; return true; }
bool f7(int a, bool& is_b, int& b, int& c) { if (a == 1) { is_b = true; b = 7; return true; } if (a == 2) { is_b = true; return true; } is_b = false; c = 8; return true; } // BAD
bool f8(int a, int& sum) { if (a > 0) sum = sum + a; return true; }
bool f9(std::error_code& ec) { int x; static_cast<void>(try_step(x, ec)); return g > 3; }
void v1(int a, int& x) { if (a == 1) { x = 1; return; } x = 2; }
void v2(int a, int& x) { if (a == 1) return; x = 2; } // BAD
bool write(const char* s, std::size_t k, std::size_t& n, std::error_code& ec) { int x; if (try_step(x, ec)) { n = k; return true; } return s == nullptr ? (n = 0, false) : false; } // BAD
bool write_2(const char* s, std::size_t k, std::size_t& n, std::error_code& ec) { int x; if (try_step(x, ec)) { n = k; return true; } n = 0; return false; }
}
bool use()
{
    int a = 0, b = 0, c = 0; bool d = false; std::error_code ec; std::size_t n;
    v1(1, a); v2(1, b);
    return f1(1, a) && f2(1, a) && f3(a, ec) && f4(a, ec) && f5(a, ec) && f6(1, d, b, c) && f7(1, d, b, c) && f8(1, a) && f9(ec) && write("", 0, n, ec) && write_2("", 0, n, ec);
}
