// Constructs that the rule of C25 must (BAD) and must not (OK) report.
#include <cstddef>
#include <memory>
#include <string>
#include <utility>
#include <archon/core/features.h>
#include <archon/core/memory.hpp>
namespace {
namespace core = archon::core;
class ProbeVector {
public:
    using T = std::string;
    auto data() noexcept -> T* { return m_data; }
    auto size() const noexcept -> std::size_t { return m_size; }
    ~ProbeVector() noexcept
    {
        core::uninit_destroy(m_data, m_size);
    }
    void push_1(const T& v) {
        reserve_extra(1);
        core::uninit_create(m_data + m_size, v);
        ++m_size;
    }
    void push_2(const T& v) { // BAD
        reserve_extra(1);
        ++m_size;
        core::uninit_create(m_data + m_size, v);
    }
    void push_3(const T& v) { // BAD
        reserve_extra(1);
        core::uninit_create(m_data + m_size, v);
    }
    void pop_1() noexcept {
        core::uninit_destroy(m_data + (m_size - 1), 1);
        --m_size;
    }
    void pop_2() noexcept { // BAD
        --m_size;
        core::uninit_destroy(m_data + (m_size - 1), 1);
    }
    void append_1(std::size_t n, const T& v) {
        reserve_extra(n);
        core::uninit_safe_fill(n, v, m_data + m_size);
        m_size += n;
    }
    void append_2(std::size_t n, const T& v) {
        reserve_extra(n);
        m_size += n;
        core::uninit_safe_fill(n, v, m_data + (m_size - n)); // BAD
    }
    void resize_1(std::size_t n) {
        if (n < m_size) {
            core::uninit_destroy(m_data + n, m_size - n);
        }
        else {
            reserve_extra(n - m_size);
            core::uninit_safe_fill(n - m_size, T(), m_data + m_size);
        }
        m_size = n;
    }
    void resize_2(std::size_t n) { // BAD
        if (n < m_size) {
            core::uninit_destroy(m_data + n, m_size - n);
        }
        else {
            reserve_extra(n);
            core::uninit_safe_fill(n, T(), m_data + m_size);
        }
        m_size = n;
    }
    void insert_1(std::size_t at, const T& v) {
        reserve_extra(1);
        std::size_t n = m_size - at;
        core::uninit_move_upwards(m_data + at, n, 1);
        try {
            core::uninit_create(m_data + at, v);
        }
        catch (...) {
            core::uninit_move_downwards(m_data + at + 1, n, 1);
            throw;
        }
        ++m_size;
    }
    void insert_2(std::size_t at, const T& v) {
        reserve_extra(1);
        std::size_t n = m_size - at;
        core::uninit_move_upwards(m_data + at, n, 1);
        core::uninit_create(m_data + at, v); // BAD
        ++m_size;
    }
    void clear_1() noexcept {
        core::uninit_destroy(m_data, m_size);
        m_size = 0;
    }
    void clear_2() noexcept { // BAD
        m_size = 0;
        core::uninit_destroy(m_data, m_size);
    }
    void realloc(std::size_t n) {
        auto mem = std::make_unique<std::byte[]>(n * sizeof (T));
        T* dst = reinterpret_cast<T*>(mem.get());
        core::uninit_safe_move(m_data, m_size, dst);
        m_mem = std::move(mem);
        m_data = dst;
        m_cap = n;
    }
    void realloc_2(std::size_t n) { // BAD
        auto mem = std::make_unique<std::byte[]>(n * sizeof (T));
        T* dst = reinterpret_cast<T*>(mem.get());
        core::uninit_safe_move(m_data, m_cap, dst);
        m_mem = std::move(mem);
        m_data = dst;
        m_cap = n;
    }
private:
    std::unique_ptr<std::byte[]> m_mem;
    T* m_data = nullptr;
    std::size_t m_cap = 0;
    std::size_t m_size = 0;
    void reserve_extra(std::size_t n) { if (m_cap - m_size < n) realloc(m_size + n); }
};

class ProbeDeque {
public:
    using T = std::string;
    struct Iter { std::size_t i; };
    auto size() const noexcept -> std::size_t { return m_size; }
    auto begin() noexcept -> Iter { return { m_offset }; }
    void push_back_1(const T& v) {
        std::size_t j = unwrap(m_size);
        core::uninit_create(ptr() + j, v);
        ++m_size;
    }
    void push_back_2(const T& v) { // BAD
        std::size_t j = unwrap(m_size + 1);
        core::uninit_create(ptr() + j, v);
        ++m_size;
    }
    void push_front_1(const T& v) {
        std::size_t j = dec(m_offset);
        core::uninit_create(ptr() + j, v);
        m_offset = j;
        ++m_size;
    }
    void push_front_2(const T& v) { // BAD
        std::size_t j = dec(m_offset);
        core::uninit_create(ptr() + j, v);
        ++m_size;
    }
    void pop_front_1() noexcept {
        core::uninit_destroy(ptr() + m_offset, 1);
        m_offset = inc(m_offset);
        --m_size;
    }
    void pop_front_2() noexcept { // BAD
        m_offset = inc(m_offset);
        core::uninit_destroy(ptr() + m_offset, 1);
        --m_size;
    }
    void clear_1() noexcept {
        std::size_t top = m_cap - m_offset;
        if (m_size <= top) {
            core::uninit_destroy(ptr() + m_offset, m_size);
        }
        else {
            core::uninit_destroy(ptr() + m_offset, top);
            core::uninit_destroy(ptr(), m_size - top);
        }
        m_size = 0;
    }
    void clear_2() noexcept { // BAD
        std::size_t top = m_cap - m_offset;
        if (m_size <= top) {
            core::uninit_destroy(ptr() + m_offset, m_size);
        }
        else {
            core::uninit_destroy(ptr() + m_offset, top);
            core::uninit_destroy(ptr(), m_size);
        }
        m_size = 0;
    }
private:
    std::unique_ptr<std::byte[]> m_mem;
    std::size_t m_cap = 0;
    std::size_t m_offset = 0;
    std::size_t m_size = 0;
    auto ptr() noexcept -> T* { return reinterpret_cast<T*>(m_mem.get()); }
    auto inc(std::size_t i) noexcept -> std::size_t { std::size_t j = i + 1; if (j < m_cap) return j; return 0; }
    auto dec(std::size_t i) noexcept -> std::size_t { std::size_t j = i; if (j > 0) return j - 1; return m_cap - 1; }
    auto unwrap(std::size_t i) noexcept -> std::size_t { std::size_t top = m_cap - m_offset; if (i < top) return m_offset + i; return i - top; }
};
}
