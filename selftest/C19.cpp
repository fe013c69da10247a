// Constructs that the rule of C19 must report (`BAD`), and ones that it must not.
#include <vector>
#include <string>
#include <archon/core/features.h>
#include <archon/core/assert.hpp>
namespace selftest {
struct S {
    int n = 0;
    mutable int calls = 0;
    std::vector<int> v;
    bool take() { return ++n > 0; }
    bool peek() const { return n > 0; }
    bool counted() const { ++calls; return true; }
    bool indirect() { return take(); }
    void f(int x, int* p)
    {
        ARCHON_ASSERT(x > 0);
        ARCHON_ASSERT(peek() && !v.empty() && v.front() == x);
        ARCHON_ASSERT(take()); // BAD
        ARCHON_ASSERT(indirect()); // BAD
        ARCHON_ASSERT(counted()); // BAD
        ARCHON_ASSERT(++x > 2); // BAD
        ARCHON_ASSERT((n = x) != 0); // BAD
        ARCHON_ASSERT(*p++ != 0); // BAD
        ARCHON_ASSERT((v.pop_back(), true)); // BAD
        bool good = take();
        ARCHON_ASSERT(good);
        auto count = [](const std::vector<int>& w) { int k = 0; for (int y : w) k += y; return k; };
        ARCHON_ASSERT(count(v) > 0);
    }
};
}
