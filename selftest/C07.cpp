// Constructs that the rule of C07 must (BAD) and must not (OK) report.
#include <algorithm>
#include <array>
#include <cstddef>
#include <exception>
#include <memory>
#include <stdexcept>
#include <string_view>
#include <vector>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
#include <archon/core/span.hpp>
namespace {
namespace core = archon::core;
void use(int);
int v1(const std::vector<int>& v, std::size_t i) { if (i < v.size()) return v[i]; return 0; }
int v2(const std::vector<int>& v, std::size_t i) { if (i <= v.size()) return v[i]; return 0; } // BAD
int v3(const std::vector<int>& v, std::size_t i) { if (i > v.size()) throw std::out_of_range(""); return v[i]; } // BAD
int v4(const std::vector<int>& v, std::size_t i) { if (i >= v.size()) throw std::out_of_range(""); return v[i]; }
int v5(const std::vector<int>& v, std::size_t i) { ARCHON_ASSERT(i < v.size()); return v[i]; }
int v6(const std::vector<int>& v, std::size_t i) { ARCHON_ASSERT(i <= v.size()); return v[i]; } // BAD
int v7(const std::vector<int>& v) { int s = 0; for (std::size_t i = 0; i < v.size(); ++i) s += v[i]; return s; }
int v8(const std::vector<int>& v) { int s = 0; for (std::size_t i = 0; i <= v.size(); ++i) s += v[i]; return s; } // BAD
int v9(const std::vector<int>& v) { int s = 0; std::size_t n = v.size(); for (std::size_t i = 0; i != n; ++i) s += v[i]; return s; }
int v10(const std::vector<int>& v) { int s = 0; for (std::size_t i = 0; i + 1 < v.size(); ++i) s += v[i] - v[i + 1]; return s; }
int v11(const std::vector<int>& v) { int s = 0; for (std::size_t i = 0; i < v.size(); ++i) s += v[i] - v[i + 1]; return s; } // BAD
int v12(const std::vector<int>& v) { return v[v.size()]; } // BAD
int v13(const std::vector<int>& v) { return v[v.size() - 1]; }
int v14(const std::vector<int>& v, std::size_t i) { return v[std::min(i, v.size())]; }
int v15(const std::vector<int>& v, std::size_t i) { std::size_t j = std::min(i, v.size()); return v[j]; } // BAD
int v16(const std::vector<int>& v, std::size_t i) { std::size_t j = std::min(i, v.size() - 1); return v[j]; }
int a1(int i) { static const int t[4] = { 1, 2, 3, 4 }; if (i >= 0 && i < 4) return t[i]; return 0; }
int a2(int i) { static const int t[4] = { 1, 2, 3, 4 }; if (i >= 0 && i <= 4) return t[i]; return 0; } // BAD
int a3() { int t[4] = {}; int s = 0; for (int i = 0; i < 4; ++i) s += t[i]; return s; }
int a4() { int t[4] = {}; int s = 0; for (int i = 0; i < 5; ++i) s += t[i]; return s; } // BAD
int a5(unsigned i) { std::array<int, 8> t = {}; return t[i % 8]; }
int a6(unsigned i) { std::array<int, 8> t = {}; unsigned j = i % 9; return t[j]; } // BAD
int a7(const std::array<int, 3>& t) { return t[2]; }
int s1(core::Span<const int> s, std::size_t i) { if (i < s.size()) return s[i]; return 0; }
int s2(core::Span<const int> s, std::size_t i) { if (!(i > s.size())) return s[i]; return 0; } // BAD
char s3(std::string_view s) { std::size_t i = 0; while (i < s.size() && s[i] == ' ') ++i; return s[i]; } // BAD
char s4(std::string_view s, std::size_t i) { while (i < s.size() && s[i] == ' ') ++i; if (i == s.size()) return 0; return s[i]; }
char s5(std::string_view s, std::size_t i) { while (i < s.size() && s[i] == ' ') ++i; if (i < s.size()) return s[i]; return 0; }
int p1(const int* p, int i, int num_slots) { ARCHON_ASSERT(i >= 0 && i < num_slots); return p[i]; }
int p2(const int* p, int i, int num_slots) { ARCHON_ASSERT(i >= 0 && i <= num_slots); return p[i]; } // BAD
int d1(const std::vector<int>& v, std::size_t i) { if (i <= v.size()) return v.data()[i]; return 0; } // BAD
int d2(const std::vector<int>& v, const std::vector<int>& w, std::size_t i) { if (i < v.size()) return v[i]; if (i < w.size()) return w[i]; return 0; }
struct Checked {
    std::vector<int> v;
    auto size() const noexcept -> std::size_t { return m_size; }
    int at1(std::size_t i) const { verify1(i); return m_data[i]; }
    int at2(std::size_t i) const { verify2(i); return m_data[i]; } // BAD
    void verify1(std::size_t i) const { if (i < size()) return; throw std::out_of_range(""); }
    void verify2(std::size_t i) const { if (i <= size()) return; throw std::out_of_range(""); }
    int operator[](std::size_t i) const { return m_data[i]; }
    int at3(std::size_t i) const { verify1(i); return (*this)[i]; }
    int at4(std::size_t i) const { verify2(i); return (*this)[i]; } // BAD
    auto data() const noexcept -> const int* { return m_data; }
    const int* m_data; std::size_t m_size;
};
int ck(const Checked& c, std::size_t i) { c.verify2(i); return c.data()[i]; } // BAD
int ck2(const Checked& c) { return c.at1(1) + c.at2(2) + c.at3(1) + c.at4(1); }
int n1(std::size_t n) { std::vector<int> v(n); int s = 0; for (std::size_t i = 0; i < n; ++i) s += v[i]; return s; }
int n2(std::size_t n) { std::vector<int> v(n); int s = 0; for (std::size_t i = 0; i <= n; ++i) s += v[i]; return s; } // BAD
int n3(std::size_t n) { auto v = std::make_unique<int[]>(n); v[n] = 0; return v[0]; } // BAD
int n4(std::size_t n) { auto v = std::make_unique<int[]>(n + 1); v[n] = 0; return v[0]; }
int n5(std::size_t n) { std::unique_ptr<int[]> v; v = std::make_unique<int[]>(n); for (std::size_t i = 0; i < n + 1; ++i) v[i] = 0; return v[0]; } // BAD
int n6(std::size_t n) { std::vector<int> v; v.resize(n); v[n - 1] = 0; return v[0]; }
int n7(std::size_t n) { std::vector<int> v; v.resize(n - 1); v[n - 1] = 0; return v[0]; } // BAD
int n8(std::size_t n) { std::vector<int> v(n); v.push_back(1); return v[n]; }
}
