// Parts of the SYCL interface on top of the model of accelerator runtimes.
#pragma once
#include <cassert>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <exception>
#include <memory>
#include <stdexcept>
#include <string>
#include <utility>
#include <vector>

namespace gpu {
struct Stream;
}
namespace sycl {
class exception : public std::runtime_error {
public:
    using std::runtime_error::runtime_error;
};
namespace info {
namespace device {
struct name {
    using return_type = std::string;
};
struct vendor {
    using return_type = std::string;
};
}  // namespace device
}  // namespace info
namespace usm {
enum class alloc { host, device, shared, unknown };
}  // namespace usm
enum class backend { model };
class device {
public:
    explicit device(int d = 0) : m_d(d) {}
    bool is_gpu() const { return true; }
    bool is_cpu() const { return false; }
    template <typename I>
    typename I::return_type get_info() const {
        return "model " + std::to_string(m_d);
    }
    bool operator==(const device &o) const { return m_d == o.m_d; }
    bool operator!=(const device &o) const { return !(*this == o); }

private:
    int m_d;
};
namespace property {
namespace queue {
struct in_order {};
}  // namespace queue
}  // namespace property
struct property_list {
    bool in_order = false;
    property_list() = default;
    property_list(property::queue::in_order) : in_order(true) {}
};
inline int default_selector_v(const device &) { return 1; }
inline int gpu_selector_v(const device &) { return 1; }

class event {
public:
    event() = default;
    explicit event(uint64_t op) : m_op(op) {}
    void wait();
    void wait_and_throw();
    static void wait(const std::vector<event> &l);
    static void wait_and_throw(const std::vector<event> &l);
    uint64_t op() const { return m_op; }

private:
    uint64_t m_op = 0;
};

class context {
public:
    explicit context(const void *p) : m_p(p) {}
    const void *get() const { return m_p; }
    bool operator==(const context &o) const { return m_p == o.m_p; }
    bool operator!=(const context &o) const { return m_p != o.m_p; }

private:
    const void *m_p;
};

class queue;
/// What one submitted command group does (a single operation)
class handler {
public:
    void depends_on(const event &e) { m_after.push_back(e); }
    void depends_on(const std::vector<event> &l) { m_after.insert(m_after.end(), l.begin(), l.end()); }
    void memcpy(void *to, const void *from, std::size_t n) { set(1, to, from, n, 0); }
    template <typename T>
    void copy(const T *from, T *to, std::size_t n) {
        set(1, to, from, n * sizeof(T), 0);
    }
    void memset(void *p, int v, std::size_t n) { set(2, p, nullptr, n, v); }
    template <typename T, typename V>
    void fill(T *p, const V &v, std::size_t n) {
        static_assert(sizeof(T) == 1, "only bytes can be filled here");
        set(2, p, nullptr, n, static_cast<unsigned char>(static_cast<T>(v)));
    }
    template <typename V>
    void fill(void *p, const V &v, std::size_t n) {
        static_assert(sizeof(V) == 1, "only bytes can be filled here");
        set(2, p, nullptr, n, static_cast<unsigned char>(v));
    }

private:
    friend class queue;
    void set(int what, void *to, const void *from, std::size_t n, int v) {
        if (m_what)
            throw exception("a command group with two actions");
        m_what = what, m_to = to, m_from = from, m_n = n, m_v = v;
    }
    int m_what = 0, m_v = 0;
    void *m_to = nullptr;
    const void *m_from = nullptr;
    std::size_t m_n = 0;
    std::vector<event> m_after;
};

/// Copies refer to the same queue
class queue {
    struct Impl;

public:
    explicit queue(const property_list &pl = {});
    template <typename Sel, typename = decltype(std::declval<Sel>()(std::declval<device>()))>
    explicit queue(const Sel &, const property_list &pl = {}) : queue(pl) {}
    explicit queue(const device &, const property_list &pl = {}) : queue(pl) {}
    template <typename P>
    bool has_property() const {
        return is_in_order();
    }
    template <typename F>
    event submit(const F &f) {
        handler h;
        f(h);
        return h.m_what == 1 ? memcpy(h.m_to, h.m_from, h.m_n, h.m_after)
               : h.m_what == 2 ? memset(h.m_to, h.m_v, h.m_n, h.m_after)
                               : ext_oneapi_submit_barrier();
    }
    template <typename T>
    event fill(void *p, const T &v, std::size_t n) {
        return submit([&](handler &h) { h.fill(p, v, n); });
    }
    event ext_oneapi_submit_barrier(const std::vector<event> &after = {});
    bool operator==(const queue &o) const { return m_impl == o.m_impl; }
    bool operator!=(const queue &o) const { return m_impl != o.m_impl; }
    device get_device() const;
    context get_context() const;
    bool is_in_order() const;
    event memcpy(void *to, const void *from, std::size_t n) { return memcpy(to, from, n, std::vector<event>()); }
    event memcpy(void *to, const void *from, std::size_t n, event e) { return memcpy(to, from, n, std::vector<event>{e}); }
    event memcpy(void *to, const void *from, std::size_t n, const std::vector<event> &after);
    template <typename T>
    event copy(const T *from, T *to, std::size_t n, const std::vector<event> &after = {}) {
        return memcpy(to, from, n * sizeof(T), after);
    }
    event memset(void *p, int v, std::size_t n) { return memset(p, v, n, std::vector<event>()); }
    event memset(void *p, int v, std::size_t n, event e) { return memset(p, v, n, std::vector<event>{e}); }
    event memset(void *p, int v, std::size_t n, const std::vector<event> &after);
    void wait();
    void wait_and_throw();
    gpu::Stream *fake_stream() const;

private:
    std::shared_ptr<Impl> m_impl;
};

void *aligned_alloc_device(std::size_t a, std::size_t n, const queue &q);
void *aligned_alloc_host(std::size_t a, std::size_t n, const queue &q);
void *aligned_alloc_shared(std::size_t a, std::size_t n, const queue &q);
void *aligned_alloc(std::size_t a, std::size_t n, const queue &q, usm::alloc kind);
void *malloc(std::size_t n, const queue &q, usm::alloc kind);
void *malloc_device(std::size_t n, const queue &q);
void *malloc_host(std::size_t n, const queue &q);
void *malloc_shared(std::size_t n, const queue &q);
void free(void *p, const context &c);
void free(void *p, const queue &q);
}  // namespace sycl
