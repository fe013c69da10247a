// Constructs that the rule of C22 must report (`BAD`), and ones that it must not.
namespace selftest {
struct Config {
    int used = 1;
    int ignored = 2; // BAD
};
int norm(int);
int f(int screen, int other) // BAD
{
    int s = screen;
    if (s < 0)
        s = norm(s); // BAD
    return norm(screen);
}
int g(int screen)
{
    int s = screen;
    if (s < 0)
        s = norm(s);
    int unused = 0;
    static_cast<void>(unused);
    return s;
}
int h(const Config& config, bool& out)
{
    int n = norm(config.used); // BAD
    n = norm(3);
    for (int i = 0; i < n; ++i) {
        int k = norm(i);
        if (k > 3)
            break;
        n -= k;
    }
    out = false;
    bool done = norm(4) != 0;
    auto lambda = [&] { done = norm(5) != 0; };
    lambda();
    done = true;
    return n;
}
template<class T, class Policy> class Ignores { // BAD
public:
    T get() const { return T(); }
};
template<class T, class Policy> class Uses {
public:
    T get() const;
};
template<class T, class Policy> T Uses<T, Policy>::get() const { return Policy::template make<T>(); }
}
