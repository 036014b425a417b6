#include <gpu.hpp>
#include <sycl/sycl.hpp>

namespace sycl {
void event::wait() {
    if (m_op)
        gpu::Runtime::get().run_op(m_op);
}
void event::wait_and_throw() {
    wait();
    auto &r = gpu::Runtime::get();
    bool late = m_op && r.async_errors.erase(m_op) > 0;
    if (late)
        r.failed = "an operation";
    bool bad = late || (m_op && r.fails("wait_and_throw"));
    if (bad && !r.no_failures)
        throw exception("asynchronous error");
}
void event::wait(const std::vector<event> &l) {
    for (event e : l)
        e.wait();
}
void event::wait_and_throw(const std::vector<event> &l) {
    wait(l);
    for (event e : l)
        e.wait_and_throw();
}

struct queue::Impl {
    gpu::Stream *stream = nullptr;
    ~Impl() {
        if (stream)
            stream->destroyed = true;
    }
};
queue::queue(const property_list &pl) : m_impl(std::make_shared<Impl>()) {
    auto &r = gpu::Runtime::get();
    if (r.fails("queue"))
        throw exception("no queue");
    m_impl->stream = r.new_stream(gpu::SYCL, 0, pl.in_order);
}
device queue::get_device() const { return device(m_impl->stream->device); }
context queue::get_context() const { return context(m_impl->stream); }
bool queue::is_in_order() const { return m_impl->stream->in_order; }
static event push_op(gpu::Stream *s, gpu::Op op, const std::vector<event> &after, const char *fn) {
    auto &r = gpu::Runtime::get();
    bool bad = r.fails(fn);
    if (bad && r.src.coin())
        throw exception("failed to submit");
    for (auto &e : after)
        if (e.op())
            op.after.push_back(e.op());
    uint64_t id = r.push(*s, op);
    if (bad) {
        // (reported once, by a wait)
        r.async_errors.insert(id);
        r.failed.clear();
    }
    return event(id);
}
event queue::memcpy(void *to, const void *from, std::size_t n, const std::vector<event> &after) {
    return push_op(m_impl->stream, {false, n, from, to, 0, 0, {}}, after, "queue::memcpy");
}
event queue::memset(void *p, int v, std::size_t n, const std::vector<event> &after) {
    return push_op(m_impl->stream, {true, n, nullptr, p, v, 0, {}}, after, "queue::memset");
}
event queue::ext_oneapi_submit_barrier(const std::vector<event> &after) {
    std::vector<event> l = after;
    if (l.empty())
        for (auto &o : m_impl->stream->queue)
            l.push_back(event(o.id));
    return memset(nullptr, 0, 0, l);
}
void queue::wait() { gpu::Runtime::get().run_all(*m_impl->stream); }
void queue::wait_and_throw() {
    wait();
    if (gpu::Runtime::get().fails("queue::wait_and_throw"))
        throw exception("asynchronous error");
}
gpu::Stream *queue::fake_stream() const { return m_impl->stream; }

static void *get_memory(std::size_t align, std::size_t n, const queue &q, gpu::Kind k, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (n == 0 || r.fails(fn))
        return nullptr;
    return r.alloc(gpu::SYCL, k, n, align == 0 ? 64 : align, 0, q.get_context().get());
}
void *aligned_alloc_device(std::size_t a, std::size_t n, const queue &q) {
    return get_memory(a, n, q, gpu::DEVICE, "aligned_alloc_device");
}
void *aligned_alloc_host(std::size_t a, std::size_t n, const queue &q) {
    return get_memory(a, n, q, gpu::HOST, "aligned_alloc_host");
}
void *aligned_alloc_shared(std::size_t a, std::size_t n, const queue &q) {
    return get_memory(a, n, q, gpu::MANAGED, "aligned_alloc_shared");
}
void *malloc_device(std::size_t n, const queue &q) { return get_memory(0, n, q, gpu::DEVICE, "malloc_device"); }
void *malloc_host(std::size_t n, const queue &q) { return get_memory(0, n, q, gpu::HOST, "malloc_host"); }
void *malloc_shared(std::size_t n, const queue &q) { return get_memory(0, n, q, gpu::MANAGED, "malloc_shared"); }
void *aligned_alloc(std::size_t a, std::size_t n, const queue &q, usm::alloc kind) {
    return get_memory(a, n, q, kind == usm::alloc::device ? gpu::DEVICE : kind == usm::alloc::host ? gpu::HOST : gpu::MANAGED,
                      "aligned_alloc");
}
void *malloc(std::size_t n, const queue &q, usm::alloc kind) { return aligned_alloc(0, n, q, kind); }
void free(void *p, const context &c) {
    if (p != nullptr)
        gpu::Runtime::get().release(gpu::SYCL, p, false, true, c.get(), "sycl::free");
}
void free(void *p, const queue &q) { free(p, q.get_context()); }
}  // namespace sycl
