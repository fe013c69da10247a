// Constructs that the rule of C08 must report (`BAD`), and ones that it must not.
#include <mutex>
#include <atomic>
#include <cstring>
#include <locale>
namespace selftest {
class A {
public:
    int get() const { return m_value; } // BAD
    void set(int v)
    {
        std::lock_guard lock(m_mutex);
        m_value = v;
        helper();
    }
    void add(int v)
    {
        std::unique_lock lock(m_mutex);
        m_value += v;
        lock.unlock();
        m_value += 1; // BAD
        lock.lock();
        m_value += 1;
    }
    void early()
    {
        {
            std::lock_guard lock(m_mutex);
            m_other = 2;
        }
        m_other = 3; // BAD
        ++m_atomic;
    }
    void passed()
    {
        std::unique_lock lock(m_mutex);
        with(lock);
    }
    void twice()
    {
        std::lock_guard lock(m_mutex);
        set(1); // BAD
    }
    void temp()
    {
        std::lock_guard<std::mutex>{m_mutex};
        m_third = 7; // BAD
    }
    void fine()
    {
        std::lock_guard<std::mutex> lock{m_mutex};
        m_third = 7;
    }
private:
    mutable std::mutex m_mutex;
    int m_value = 0;
    int m_other = 0;
    int m_third = 0;
    std::atomic<int> m_atomic { 0 };
    const int m_const = 0;
    void helper() { m_value += m_const; }
    void check_then_act()
    {
        {
            std::lock_guard lock(m_mutex);
            if (m_value != 0)
                return;
        }
        std::lock_guard lock(m_mutex);
        m_value = 1; // BAD
    }
    void check_again()
    {
        {
            std::lock_guard lock(m_mutex);
            if (m_value != 0)
                return;
        }
        std::lock_guard lock(m_mutex);
        if (m_value == 0)
            m_value = 1;
    }
    void with(std::unique_lock<std::mutex>& lock)
    {
        m_value = 1;
        lock.unlock();
        m_atomic = m_const;
        lock.lock();
        m_value = 2;
    }
};
class SharedThing {
public:
    void set(int v) { m_plain = v; } // BAD
    int get() const { return m_plain; }
    void set_2(int v) { m_atomic = v; }
    SharedThing(int v) : m_plain(v) { m_plain = v + 1; }
private:
    int m_plain = 0;
    std::atomic<int> m_atomic { 0 };
};
std::mutex g_m1, g_m2;
void order1() { std::lock_guard l1(g_m1); std::lock_guard l2(g_m2); } // BAD
void order2() { std::lock_guard l2(g_m2); std::lock_guard l1(g_m1); } // BAD
int counter()
{
    static int n = 0;
    return ++n; // BAD
}
int counter_2()
{
    static std::atomic<int> n { 0 };
    static const int m = 7;
    return ++n + m;
}
const char* msg(int err) { return std::strerror(err); } // BAD
}
