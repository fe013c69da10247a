// Constructs that the rules of C17 must report (`BAD`), and ones that they must not.
#include <functional>
#include <memory>
#include <string>
#include <string_view>
#include <utility>
#include <vector>
#include <archon/core/span.hpp>
#include <archon/core/buffer.hpp>
namespace selftest {
void sink(std::string s);
void look(const std::string& s);
void fill(std::string& s);
void read_only(std::string&& s) { look(s); }
struct M {
    std::string name;
    std::vector<int> data;
    std::string_view view;
    const char* ptr = nullptr;
    std::size_t a(std::string s)
    {
        sink(std::move(s));
        return s.size(); // BAD
    }
    std::size_t b(std::string s, bool c)
    {
        if (c) sink(std::move(s));
        if (!c) return 0;
        s = "x";
        return s.size();
    }
    void c(std::string s)
    {
        for (int i = 0; i < 2; ++i)
            sink(std::move(s)); // BAD
    }
    void d()
    {
        for (int i = 0; i < 2; ++i) {
            std::string s = "abc";
            sink(std::move(s));
        }
    }
    void e(std::string s) { read_only(std::move(s)); look(s); }
    void f(std::string s) { name = std::move(s); look(s); } // BAD
    void g(std::string s) { sink(std::move(s)); fill(s); look(s); }
    void h(M& other) { sink(std::move(other.name)); look(other.name); } // BAD
    void i(M other) { sink(std::move(other.name)); data = std::move(other.data); }
    void j(std::string s) { auto l = [s = std::move(s)] { look(s); }; l(); look(s); } // BAD
    std::function<void()> l(std::string s)
    {
        return [s = std::move(s)] { look(s); };
    }
    void k(std::string s) { s.clear(); sink(std::move(s)); s.clear(); look(s); }
    void steal(std::string& s) { sink(std::move(s)); } // BAD
    template<class T> void fwd(T&& x) { sink(std::forward<T>(x)); }
    template<class T> void bad_fwd(T&& x) { sink(std::move(x)); } // BAD
    void inst(std::string s) { fwd(s); fwd(std::string(s)); bad_fwd(std::string(s)); }
    std::string_view r1() { std::string s = "x"; return s; } // BAD
    std::string_view r2() { return name; }
    archon::core::Span<const char> r3() { char b[4] = {}; return b; } // BAD
    archon::core::Span<const char> r4() { archon::core::Buffer<char> b(10); std::size_t n = 4; return { b.data(), n }; } // BAD
    const char* r5() { std::string s = "x"; const char* p = s.c_str(); return p; } // BAD
    const char* r6(const std::string& s) { return s.data(); }
    std::string_view r7(std::string s) { std::string_view v = s; return v; } // BAD
    void s1() { std::string s = "x"; view = s; } // BAD
    void s2(std::string& s) { view = s; }
    void s3() { std::unique_ptr<char[]> s = std::make_unique<char[]>(8); ptr = s.get(); keep = std::move(s); }
    void s4(std::string_view& out) { std::vector<char> v(5); out = { v.data(), v.size() }; } // BAD
    std::unique_ptr<char[]> keep;
    void v1(std::vector<int>& w) { int* p = w.data(); w.push_back(1); *p = 2; } // BAD
    void v2(std::vector<int>& w) { w.push_back(1); int* p = w.data(); *p = 2; }
    void v3(std::vector<int>& w) { int& p = w.front(); grow(w); p = 2; } // BAD
    void v4(std::vector<int>& w) { int p = w.front(); grow(w); use(p); }
    void v5(std::vector<int>& w) { int* p = w.data(); for (int i = 0; i < 4; ++i) { *p = i; // BAD
        if (i == 2) w.resize(10); } }
    void v6(std::vector<int*>& w) { int* p = w.front(); w.push_back(p); *p = 2; }
    void v7() { auto i = data.begin(); auto j = i + 1; data.insert(i, 3); use(*j); } // BAD
    void v8(archon::core::Buffer<char>& b) { std::size_t n = 0; const char* p = b.data(); b.append("x", n); std::string_view v = { p, n }; look(std::string(v)); } // BAD
    void v9(std::vector<int>& w) { int* p = w.data(); *p = 1; w.push_back(1); p = w.data(); *p = 2; }
    void grow(std::vector<int>& w);
    void use(int);
};
}
