// Constructs that the rules of C21 must report (`BAD`), and ones that they must not.
#include <cstddef>
#include <memory>
#include <vector>
#include <archon/core/integer.hpp>
namespace selftest {
class Sizes {
public:
    std::ptrdiff_t distance(std::ptrdiff_t bytes) { return std::ptrdiff_t(bytes / sizeof(int)); } // BAD
    std::ptrdiff_t distance_2(std::ptrdiff_t bytes) { return bytes / std::ptrdiff_t(sizeof(int)); }
    int guarded(int i, int begin, std::size_t m)
    {
        if (i >= begin && i < 1000) {
            int val = i - begin;
            int a = int(val / m);
            val %= m;
            return a + val;
        }
        return 0;
    }
    int unguarded(int i, int begin, std::size_t m)
    {
        int val = i - begin;
        return int(val / m); // BAD
    }
    bool verdicts(int a, int b)
    {
        int c = a;
        archon::core::try_int_add(c, b); // BAD
        static_cast<void>(archon::core::try_int_cast(a, c)); // BAD
        if (archon::core::try_int_mul(c, b)) return true;
        bool ok = archon::core::try_int_sub(c, b);
        return ok;
    }
    std::size_t area(int w, int h) { return std::size_t(w) * h; } // BAD
    std::unique_ptr<int[]> alloc_1(int w, int h) { return std::make_unique<int[]>(area(w, h)); }
    std::unique_ptr<int[]> alloc_2(int w, int h)
    {
        std::size_t n = std::size_t(w);
        archon::core::int_mul(n, h);
        return std::make_unique<int[]>(n);
    }
    void alloc_3(int w, int h)
    {
        std::size_t n = std::size_t(w);
        n *= h; // BAD
        grow(n);
    }
    void alloc_4(int w, int h, int d)
    {
        std::size_t n = std::size_t(w);
        archon::core::int_mul(n, h);
        n *= d; // BAD
        total = n;
    }
    void grow(std::size_t n) { data.reserve(n); }
    void alloc_5(std::size_t size) { std::size_t k = size / 6; data.resize(k * 6); }
private:
    std::vector<int> data;
    std::size_t total = 0;
};
}
