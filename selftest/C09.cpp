// Constructs that the rule of C09 must report (`BAD`), and ones that it must not.
#include <utility>
#include <cstddef>
namespace selftest {

void release(void*);

class Good {
public:
    Good() noexcept = default;
    Good(const Good&) = delete;
    Good(Good&& other) noexcept
        : m_ptr(other.m_ptr)
        , m_size(other.m_size)
        , m_cap(other.m_cap)
    {
        other.m_ptr = nullptr;
        other.m_size = 0;
    }
    ~Good() noexcept
    {
        if (m_ptr)
            release(m_ptr);
    }
    Good& operator=(Good&& other) noexcept
    {
        if (m_ptr)
            release(m_ptr);
        m_ptr  = other.m_ptr;
        m_size = other.m_size;
        m_cap  = other.m_cap;
        other.m_ptr = nullptr;
        other.m_size = 0;
        return *this;
    }
    void swap(Good& other) noexcept
    {
        std::swap(m_ptr, other.m_ptr);
        std::swap(m_size, other.m_size);
        std::swap(m_cap, other.m_cap);
    }
private:
    void* m_ptr = nullptr;
    std::size_t m_size = 0;
    std::size_t m_cap = 0;
};

class Bad {
public:
    Bad() noexcept = default;
    Bad(Bad&& other) noexcept // BAD
        : m_ptr(other.m_ptr)
        , m_size(other.m_cap)
        , m_cap(other.m_cap)
    {
        other.m_ptr = nullptr;
        other.m_size = 0;
    }
    ~Bad() noexcept
    {
        if (m_ptr)
            release(m_ptr);
    }
    Bad& operator=(Bad&& other) noexcept // BAD
    {
        if (m_ptr)
            release(m_ptr);
        m_ptr  = other.m_ptr;
        m_size = other.m_size;
        if (other.m_size > 0)
            m_cap  = other.m_cap;
        other.m_ptr = nullptr;
        other.m_size = 0;
        return *this;
    }
    void swap(Bad& other) noexcept // BAD
    {
        std::swap(m_ptr, other.m_ptr);
        std::swap(m_size, other.m_size);
    }
private:
    void* m_ptr = nullptr;
    std::size_t m_size = 0;
    std::size_t m_cap = 0;
};

class Leak {
public:
    Leak() noexcept = default;
    Leak(Leak&& other) noexcept // BAD
        : m_ptr(other.m_ptr)
        , m_size(other.m_size)
    {
    }
    ~Leak() noexcept
    {
        if (m_ptr)
            release(m_ptr);
    }
private:
    void* m_ptr = nullptr;
    std::size_t m_size = 0;
};

struct P2 {
    int x = 0, y = 0;
    friend bool operator==(const P2& a, const P2& b) noexcept { return a.x == b.x && a.y == b.y; }
    friend bool operator!=(const P2& a, const P2& b) noexcept { return !(a == b); }
    friend bool operator<(const P2& a, const P2& b) noexcept { return a.x < b.x || (a.x == b.x && a.y < b.y); }
    friend bool operator>(const P2& a, const P2& b) noexcept { return b < a; }
    friend bool operator<=(const P2& a, const P2& b) noexcept { return !(b < a); }
    friend bool operator>=(const P2& a, const P2& b) noexcept { return !(a < b); }
};

struct P3 {
    int x = 0, y = 0;
    friend bool operator==(const P3& a, const P3& b) noexcept { return a.x == b.x && a.y == b.y; }
    friend bool operator!=(const P3& a, const P3& b) noexcept { return a.x != b.x && a.y != b.y; } // BAD
    friend bool operator<(const P3& a, const P3& b) noexcept { return a.x < b.x || a.y < b.y; } // BAD
};

struct P4 {
    int x = 0, y = 0;
    friend bool operator==(const P4& a, const P4& b) noexcept { return a.x == b.x; } // BAD
};

}
