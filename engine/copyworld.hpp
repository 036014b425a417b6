// Generated copy/setup/fill histories over 1D, jagged and SoA containers, in plain host memory or with a
// protected device memory behind an asynchronous copy backend. Shared by the copy checks.
#pragma once
#include <pthread.h>
#include <sys/mman.h>

#include <deque>
#include <memory>
#include <string>

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include "types.hpp"
#include "upstream.hpp"

namespace pbt {
namespace cw {
using SZ = unsigned int;
using vecmem::data::buffer_type;
using CT = vecmem::copy::type;

/// An upstream whose memory can only be touched while it is opened
class DeviceUpstream : public ModelUpstream {
public:
    static constexpr std::size_t LEN = std::size_t(256) << 20;
    DeviceUpstream(Src *src, int region, bool guarded)
        : ModelUpstream(src, region, Place::Separated), m_base(Region::get(region).base()), m_guarded(guarded) {
        max_total = LEN / 4;
        name = "device memory";
        protect(true);
    }
    ~DeviceUpstream() { protect(false); }
    bool has(const void *p) const {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        return a >= m_base && a < m_base + Region::SIZE;
    }
    struct Open {
        DeviceUpstream &d;
        explicit Open(DeviceUpstream &d_) : d(d_) {
            if (d.m_open++ == 0)
                d.protect(false);
        }
        ~Open() {
            if (--d.m_open == 0)
                d.protect(true);
        }
        Open(const Open &) = delete;
    };

protected:
    void *do_allocate(std::size_t size, std::size_t align) override {
        Open o(*this);
        return ModelUpstream::do_allocate(size, align);
    }
    void do_deallocate(void *p, std::size_t size, std::size_t align) override {
        Open o(*this);
        ModelUpstream::do_deallocate(p, size, align);
    }

private:
    void protect(bool on) {
        if (m_guarded)
            mprotect(reinterpret_cast<void *>(m_base), LEN, on ? PROT_NONE : PROT_READ | PROT_WRITE);
    }
    uintptr_t m_base;
    bool m_guarded;
    int m_open = 0;
};

/// A backend that runs raw operations in order, but late: when an event is waited for (or by itself, whenever
/// the generator says so). Judges the direction given for each, and that they only refer to live memory.
class AsyncCopy : public vecmem::copy {
public:
    AsyncCopy(Src &src, ModelUpstream &host, DeviceUpstream &dev) : m_src(src), m_host(host), m_dev(dev) {}
    ~AsyncCopy() {}
    void flush() const { run(m_issued); }
    uint64_t issued() const { return m_issued; }
    uint64_t late() const { return m_late; }

protected:
    struct Op {
        bool fill;
        std::size_t size;
        const void *from;
        void *to;
        int value;
    };
    void do_copy(std::size_t size, const void *from, void *to, CT::copy_type t) const override {
        if (size == 0)
            return;
        bool f = m_dev.has(from), d = m_dev.has(to);
        const char *names[] = {"host to device", "device to host", "host to host", "device to device", "unknown"};
        bool ok = t == CT::unknown || (t == CT::host_to_device && !f && d) || (t == CT::device_to_host && f && !d) ||
                  (t == CT::host_to_host && !f && !d) || (t == CT::device_to_device && f && d);
        PBT_CHECK(ok, "a raw copy from %s to %s memory is declared as \"%s\"", f ? "device" : "host",
                  d ? "device" : "host", t >= 0 && t <= 4 ? names[t] : "?");
        push({false, size, from, to, 0});
    }
    void do_memset(std::size_t size, void *p, int value) const override {
        if (size == 0)
            return;
        push({true, size, nullptr, p, value});
    }
    event_type create_event() const override;

private:
    struct Event;
    void push(Op op) const {
        m_queue.push_back(op);
        ++m_issued;
        // the backend may make progress at any time
        if (m_src.chance(1, 6))
            run(m_done + 1 + m_src.draw(m_queue.size()));
    }
    void live(const void *p, std::size_t n, const char *what) const {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        static uintptr_t lo = 0, hi = 0;
        if (hi == 0) {
            pthread_attr_t at;
            void *addr;
            std::size_t sz;
            pthread_getattr_np(pthread_self(), &at);
            pthread_attr_getstack(&at, &addr, &sz);
            pthread_attr_destroy(&at);
            lo = reinterpret_cast<uintptr_t>(addr);
            hi = lo + sz;
        }
        static const uintptr_t host_base = Region::get(0).base();
        if (m_dev.has(p))
            PBT_CHECK(m_dev.contains(p, n), "a raw operation %s %zu bytes of device memory that are not allocated (any more)",
                      what, n);
        else if (a >= host_base && a < host_base + Region::SIZE)
            PBT_CHECK(m_host.contains(p, n), "a raw operation %s %zu bytes of host memory that are not allocated (any more)",
                      what, n);
        else if (a >= lo && a < hi)
            PBT_CHECK(a >= reinterpret_cast<uintptr_t>(__builtin_frame_address(0)),
                      "a raw operation %s a variable of a function that has returned", what);
        // anything else is judged by AddressSanitizer
    }
    void run(uint64_t upto) const {
        while (m_done < upto && !m_queue.empty()) {
            Op op = m_queue.front();
            m_queue.pop_front();
            ++m_done;
            if (m_issued > m_done)
                ++m_late;
            live(op.to, op.size, "writes");
            if (!op.fill)
                live(op.from, op.size, "reads");
            DeviceUpstream::Open o(m_dev);
            if (op.fill)
                ::memset(op.to, op.value, op.size);
            else
                ::memmove(op.to, op.from, op.size);
        }
    }
    Src &m_src;
    ModelUpstream &m_host;
    DeviceUpstream &m_dev;
    mutable std::deque<Op> m_queue;
    mutable uint64_t m_issued = 0, m_done = 0, m_late = 0;
};
struct AsyncCopy::Event : public vecmem::abstract_event {
    const AsyncCopy &c;
    uint64_t upto;
    bool used = false;
    int exceptions = std::uncaught_exceptions();
    Event(const AsyncCopy &c_, uint64_t u) : c(c_), upto(u) {}
    ~Event() {
        // (the tests here wait for all of those that they get)
        if (!used && std::uncaught_exceptions() <= exceptions)
            sticky_fail("an event is dropped without being waited for");
    }
    void wait() override {
        used = true;
        c.run(upto);
    }
    void ignore() override { used = true; }
};
inline vecmem::copy::event_type AsyncCopy::create_event() const { return std::make_unique<Event>(*this, m_issued); }

/// What copies are done with
struct Backend {
    virtual ~Backend() = default;
    virtual const vecmem::copy &copy() = 0;
    /// May operations be waited for after later ones have been started?
    virtual bool defers() = 0;
    /// Remembers what has been issued so far
    virtual uint64_t mark() { return 0; }
    /// See to it that an operation is done
    virtual void finish(vecmem::copy::event_type e, uint64_t before, uint64_t after) = 0;
    /// Called when all operations were finished
    virtual void settled() {}
    /// Wait for what was not waited for
    virtual void flush() {}
    virtual bool interesting() = 0;
};
struct HostBackend : Backend {
    vecmem::copy c;
    const vecmem::copy &copy() override { return c; }
    bool defers() override { return false; }
    void finish(vecmem::copy::event_type e, uint64_t, uint64_t) override { e->wait(); }
    bool interesting() override { return true; }
};
struct LateBackend : Backend {
    AsyncCopy c;
    LateBackend(Src &src, ModelUpstream &host, DeviceUpstream &dev) : c(src, host, dev) {}
    const vecmem::copy &copy() override { return c; }
    bool defers() override { return true; }
    void finish(vecmem::copy::event_type e, uint64_t, uint64_t) override { e->wait(); }
    void flush() override { c.flush(); }
    bool interesting() override { return c.late() > 0; }
};

enum Ops : unsigned { COPY = 1, TO = 2, SIZES = 4, SETUP = 8, FILL = 16 };

struct World {
    Src &src;
    bool async;
    unsigned ops;
    ModelUpstream host;
    DeviceUpstream dev;
    std::unique_ptr<Backend> backend;
    struct Pending {
        vecmem::copy::event_type e;
        uint64_t before, after;
    };
    std::vector<Pending> pending;
    std::vector<std::pair<uintptr_t, std::size_t>> dirty;
    std::map<uintptr_t, std::vector<unsigned char>> snap;
    unsigned done = 0;

    using Maker = std::unique_ptr<Backend> (*)(World &);
    World(Src &s, bool async_, unsigned ops_, Maker make = nullptr)
        : src(s), async(async_), ops(ops_), host(&s, 0, ModelUpstream::Place::Separated), dev(&s, 1, async_) {
        // an address stands for one block only
        host.reuse = dev.reuse = false;
        host.name = "host memory";
        if (make)
            backend = make(*this);
        else if (async)
            backend = std::make_unique<LateBackend>(src, host, dev);
        else
            backend = std::make_unique<HostBackend>();
    }
    const vecmem::copy &copy() const { return backend->copy(); }

    /// In a few histories there are many rows, or long ones (0: as few as usual). Their details come from a generator
    /// of their own, so that they do not need a choice each.
    std::size_t big_rows = 0, big_len = 0;
    uint64_t state = 1;
    void scale(std::size_t most_rows, std::size_t most_len) {
        if (src.draw(60) < 59)
            return;
        state = 1 + src.draw(uint64_t(1) << 32);
        switch (src.draw(3)) {
            case 0:
                big_rows = src.chance(1, 16) ? most_rows : 16 << src.draw(6);
                break;
            case 1:
                big_len = src.chance(1, 16) ? most_len : 16 << src.draw(8);
                break;
            default:
                big_rows = 16 << src.draw(3);
                big_len = 16 << src.draw(3);
        }
        big_rows = std::min(big_rows, most_rows);
        big_len = std::min(big_len, most_len);
        src.label("large containers");
    }
    bool big() const { return big_rows > 0 || big_len > 0; }
    uint64_t next(uint64_t n) {
        state ^= state << 13;
        state ^= state >> 7;
        state ^= state << 17;
        return (state >> 11) % n;
    }
    /// One of many small decisions
    uint64_t pick(uint64_t n) { return big() ? next(n) : src.draw(n); }
    bool odds(uint64_t k, uint64_t n) { return big() ? next(n) < k : src.chance(k, n); }
    std::size_t rows(std::size_t n) { return big_rows ? next(4) ? big_rows - next(3) : next(big_rows + 1) : src.draw(n); }
    std::size_t len(std::size_t n) { return big_len ? next(3) ? next(big_len + 1) : next(4) : pick(n); }
    int operations() { return 2 + static_cast<int>(src.draw(thorough() ? 24 : big() ? 5 : 9)); }

    /// A true direction
    CT::copy_type direction(bool from_dev, bool to_dev, bool to_host_container = false) {
        if (src.coin())
            return CT::unknown;
        if (!async) {
            // in host memory nothing depends on it
            if (to_host_container)
                return src.coin() ? CT::host_to_host : CT::device_to_host;
            return static_cast<CT::copy_type>(src.draw(4));
        }
        return from_dev ? (to_dev ? CT::device_to_device : CT::device_to_host)
                        : (to_dev ? CT::host_to_device : CT::host_to_host);
    }
    bool interesting() const { return !async || (backend->interesting() && dev.alloc_calls() > 0); }
    void touch(const void *p, std::size_t n) {
        if (n > 0)
            dirty.push_back({reinterpret_cast<uintptr_t>(p), n});
    }
    /// Start a library operation. It may be waited for later.
    template <typename F>
    void start(F f) {
        uint64_t before = backend->mark();
        vecmem::copy::event_type e = f();
        uint64_t after = backend->mark();
        PBT_CHECK(e.get() != nullptr, "no event was returned");
        if (async && backend->defers() && src.coin()) {
            pending.push_back({std::move(e), before, after});
            src.label("waited for later");
        } else
            backend->finish(std::move(e), before, after);
        ++done;
    }
    /// Wait for everything, and see that only the expected memory has changed
    void settle(bool flush = false) {
        while (!pending.empty()) {
            std::size_t k = src.draw(pending.size());
            backend->finish(std::move(pending[k].e), pending[k].before, pending[k].after);
            pending.erase(pending.begin() + static_cast<std::ptrdiff_t>(k));
        }
        if (flush)
            backend->flush();
        backend->settled();
        DeviceUpstream::Open o(dev);
        check(host);
        check(dev);
        reset();
    }
    void reset() {
        DeviceUpstream::Open o(dev);
        snap.clear();
        dirty.clear();
        for (ModelUpstream *u : {&host, static_cast<ModelUpstream *>(&dev)})
            for (auto &b : u->live()) {
                const unsigned char *p = reinterpret_cast<const unsigned char *>(b.first);
                snap[b.first].assign(p, p + b.second.size);
            }
    }
    void check(ModelUpstream &u) {
        for (auto &b : u.live()) {
            auto it = snap.find(b.first);
            if (it == snap.end())
                continue;
            const unsigned char *p = reinterpret_cast<const unsigned char *>(b.first);
            if (memcmp(p, it->second.data(), it->second.size()) == 0)
                continue;
            for (std::size_t i = 0; i < it->second.size(); ++i) {
                if (p[i] == it->second[i])
                    continue;
                bool ok = false;
                for (auto &d : dirty)
                    ok = ok || (b.first + i >= d.first && b.first + i < d.first + d.second);
                PBT_CHECK(ok, "byte %zu of a block of %zu bytes of %s was changed (from %02x to %02x), which it should not be",
                          i, it->second.size(), u.name.c_str(), it->second[i], p[i]);
            }
        }
    }
    /// Memory for an own view
    char *raw(bool on_dev, std::size_t n) {
        ModelUpstream &u = on_dev ? dev : host;
        if (n == 0)
            n = 1;
        return static_cast<char *>(u.allocate(n, 64));
    }
    vecmem::memory_resource &mr(bool on_dev) {
        if (on_dev)
            return dev;
        return host;
    }
};

template <typename T>
std::string bytes(const T *p, std::size_t n) {
    return std::string(reinterpret_cast<const char *>(p), n * sizeof(T));
}
template <typename T>
std::string make_bytes(uint64_t v) {
    T t = Conv<T>::make(v);
    return bytes(&t, 1);
}

// --------------------------------------------------------------------------------------------- one dimension
template <typename T>
struct Vec1 {
    World &w;
    enum Kind { HostVec, StdVec, Buffer, Raw } kind;
    bool dev = false;
    vecmem::vector<T> hv;
    std::vector<T> sv;
    vecmem::data::vector_buffer<T> buf;
    vecmem::data::vector_view<T> rawv;
    char *block = nullptr;
    std::size_t block_size = 0;
    SZ *raw_size = nullptr;
    std::string model;  // its elements

    explicit Vec1(World &w_) : w(w_), hv(&w_.host), rawv(0, nullptr) {}
    Vec1(const Vec1 &) = delete;
    ~Vec1() {
        if (block)
            w.mr(dev).deallocate(block, block_size, 64);
    }
    bool growable() const { return kind == HostVec || kind == StdVec; }
    vecmem::data::vector_view<T> view() {
        switch (kind) {
            case HostVec:
                return vecmem::get_data(hv);
            case StdVec:
                return vecmem::get_data(sv);
            case Buffer:
                return vecmem::get_data(buf);
            default:
                return rawv;
        }
    }
    std::size_t size() const { return model.size() / sizeof(T); }
    const char *name() const {
        return kind == HostVec ? "host vector" : kind == StdVec ? "std::vector" : kind == Buffer ? "buffer" : "view";
    }
    void make(std::size_t cap) {
        Src &src = w.src;
        kind = static_cast<Kind>(src.draw(4));
        bool resizable = src.coin();
        dev = !growable() && src.coin();
        switch (kind) {
            case HostVec:
                hv.resize(cap);
                break;
            case StdVec:
                sv.resize(cap);
                break;
            case Buffer: {
                vecmem::data::vector_buffer<T> b(static_cast<SZ>(cap), w.mr(dev),
                                                 resizable ? buffer_type::resizable : buffer_type::fixed_size);
                buf = std::move(b);
                if (resizable || src.coin())
                    w.copy().setup(view())->wait();
                break;
            }
            default: {
                // somewhere inside a bigger block
                std::size_t before = src.draw(3) * alignof(T), after = src.draw(3) * sizeof(T);
                std::size_t off = (sizeof(SZ) + alignof(T) - 1) / alignof(T) * alignof(T) + before;
                block_size = off + cap * sizeof(T) + after;
                block = w.raw(dev, block_size);
                raw_size = resizable ? reinterpret_cast<SZ *>(block) : nullptr;
                rawv = vecmem::data::vector_view<T>(static_cast<SZ>(cap), raw_size, reinterpret_cast<T *>(block + off));
                if (resizable) {
                    DeviceUpstream::Open o(w.dev);
                    *raw_size = 0;
                }
            }
        }
        adopt();
        PBT_TRACE(src, "%s%s %s of capacity %zu", view().size_ptr() ? "resizable " : "", dev ? "device" : "host", name(),
                  cap);
        if (src.chance(3, 4))
            scribble();
        w.settle();
    }
    void adopt() {
        DeviceUpstream::Open o(w.dev);
        auto v = view();
        model = bytes(v.ptr(), v.size());
    }
    /// What a kernel (or the user) may do: change sizes and elements
    void scribble() {
        Src &src = w.src;
        w.settle();
        DeviceUpstream::Open o(w.dev);
        std::size_t n;
        if (growable()) {
            n = w.len(9);
            hv.resize(kind == HostVec ? n : 0);
            sv.resize(kind == StdVec ? n : 0);
        } else {
            auto v = view();
            n = v.capacity();
            if (v.size_ptr()) {
                n = w.pick(n + 1);
                *v.size_ptr() = static_cast<SZ>(n);
            }
        }
        PBT_TRACE(src, "write %zu elements to a %s", n, name());
        auto v = view();
        for (std::size_t i = 0; i < n; ++i)
            v.ptr()[i] = Conv<T>::make(1 + w.pick(20000));
        model = bytes(v.ptr(), n);
        w.reset();
    }
    void verify(const char *when) {
        DeviceUpstream::Open o(w.dev);
        auto v = view();
        SZ n = v.size_ptr() ? *v.size_ptr() : v.capacity();
        PBT_CHECK(n == size(), "%s: a %s has %u elements instead of %zu", when, name(), n, size());
        PBT_CHECK(bytes(v.ptr(), n) == model, "%s: the elements of a %s of size %u are wrong", when, name(), n);
        // the way that device code looks at it
        vecmem::device_vector<const T> d{vecmem::data::vector_view<const T>(v)};
        PBT_CHECK(d.size() == n, "%s: a device vector over a %s has %u elements instead of %u", when, name(), d.size(), n);
    }
};

template <typename T>
void history_1d(World &w) {
    Src &src = w.src;
    using Slot = Vec1<T>;
    std::vector<std::unique_ptr<Slot>> slots;
    w.scale(0, 70000);
    auto cap = [&] { return src.chance(1, 10) ? w.len(70) : w.len(8); };
    auto fresh = [&] {
        slots.push_back(std::make_unique<Slot>(w));
        slots.back()->make(cap());
    };
    fresh();
    fresh();
    unsigned moved = 0, refused = 0, filled = 0, tos = 0;
    auto verify = [&](const char *when, bool flush = false) {
        w.settle(flush);
        for (auto &s : slots)
            s->verify(when);
        check_sticky();
    };
    int nops = w.operations();
    for (int op = 0; op < nops; ++op) {
        Slot &a = *slots[src.draw(slots.size())];
        Slot &b = *slots[src.draw(slots.size())];
        switch (src.draw(10)) {
            case 0:
                if (slots.size() < 5)
                    fresh();
                break;
            case 1:
                a.scribble();
                break;
            case 2:
                if (slots.size() > 2) {
                    w.settle();
                    slots.erase(slots.begin() + src.draw(slots.size()));
                    w.reset();
                }
                break;
            case 3:
                if (w.ops & SIZES) {
                    auto v = a.view();
                    vecmem::data::vector_view<const T> cv = v;
                    SZ n = src.coin() ? w.copy().get_size(v) : w.copy().get_size(cv);
                    PBT_TRACE(src, "get_size of a %s", a.name());
                    PBT_CHECK(n == a.size(), "get_size of a %s returns %u instead of %zu", a.name(), n, a.size());
                }
                break;
            case 4:
                if ((w.ops & TO) && slots.size() < 6) {
                    auto s = std::make_unique<Slot>(w);
                    s->kind = Slot::Buffer;
                    s->dev = src.coin();
                    PBT_TRACE(src, "a %s buffer from a %s of size %zu", s->dev ? "device" : "host", a.name(), a.size());
                    auto t = w.direction(a.dev, s->dev);
                    auto v = a.view();
                    vecmem::data::vector_view<const T> cv = v;
                    if (src.coin())
                        s->buf = w.copy().to(v, w.mr(s->dev), t);
                    else
                        s->buf = w.copy().to(cv, w.mr(s->dev), t);
                    s->model = a.model;
                    PBT_CHECK(s->buf.capacity() == a.size(), "the created buffer has capacity %u instead of %zu",
                              s->buf.capacity(), a.size());
                    slots.push_back(std::move(s));
                    ++tos;
                }
                break;
            case 5:
                if (w.ops & SETUP) {
                    PBT_TRACE(src, "setup a %s", a.name());
                    auto v = a.view();
                    w.start([&] { return w.copy().setup(v); });
                    if (v.size_ptr()) {
                        w.touch(v.size_ptr(), sizeof(SZ));
                        a.model.clear();
                    }
                    ++filled;
                }
                break;
            case 6:
                if (w.ops & FILL) {
                    int c = src.pick({0, 1, 0x7f, 0xff, -1});
                    PBT_TRACE(src, "fill a %s of %zu elements with %d", a.name(), a.size(), c);
                    auto v = a.view();
                    w.start([&] { return w.copy().memset(v, c); });
                    w.touch(v.ptr(), v.capacity() * sizeof(T));
                    if (a.size() > 0)
                        ++filled;
                    a.model.assign(a.model.size(), static_cast<char>(c));
                    if (src.coin()) {
                        // all of the capacity
                        w.settle();
                        DeviceUpstream::Open o(w.dev);
                        PBT_CHECK(bytes(v.ptr(), v.capacity()) == std::string(v.capacity() * sizeof(T), static_cast<char>(c)),
                                  "memset did not fill all of the capacity of a %s", a.name());
                    }
                }
                break;
            default: {
                if (!(w.ops & COPY) || &a == &b)
                    break;
                vecmem::data::vector_view<const T> from = a.view();
                std::size_t n = a.size();
                bool into = b.growable() && src.coin();
                PBT_TRACE(src, "copy a %s of size %zu to a %s of size %zu, capacity %u%s", a.name(), n, b.name(), b.size(),
                          b.view().capacity(), into ? " (resizing it)" : "");
                auto t = w.direction(a.dev, b.dev, into);
                if (into) {
                    // (a raw operation may still refer to its memory)
                    w.settle();
                    if (b.kind == Slot::HostVec) {
                        w.touch(b.hv.data(), b.hv.capacity() * sizeof(T));
                        w.start([&] { return w.copy()(from, b.hv, t); });
                    } else
                        w.start([&] { return w.copy()(from, b.sv, t); });
                    b.model = a.model;
                    ++moved;
                    break;
                }
                auto to = b.view();
                if (to.capacity() < n) {
                    PBT_CHECK(throws<std::length_error>([&] { (void)w.copy()(from, to, t); }),
                              "copying %zu elements to a %s of capacity %u does not throw", n, b.name(), to.capacity());
                    verify("after a refused copy", true);
                    ++refused;
                    break;
                }
                bool by_object = a.kind == Slot::Buffer && b.kind == Slot::Buffer && src.coin();
                w.start([&] { return by_object ? w.copy()(a.buf, b.buf, t) : w.copy()(from, to, t); });
                w.touch(to.ptr(), n * sizeof(T));
                if (to.size_ptr()) {
                    w.touch(to.size_ptr(), sizeof(SZ));
                    b.model = a.model;
                } else
                    b.model.replace(0, a.model.size(), a.model);
                ++moved;
            }
        }
        if (src.coin())
            verify("after an operation");
    }
    verify("at the end");
    if ((moved >= 2 || tos >= 2 || refused || filled >= 2) && w.interesting())
        src.nontrivial();
    if (refused)
        src.label("refused");
    slots.clear();
    check_sticky();
    w.host.expect_balanced("at the end");
    w.dev.expect_balanced("at the end");
}

// --------------------------------------------------------------------------------------------- jagged vectors
template <typename T>
struct Jag {
    World &w;
    using JV = vecmem::data::jagged_vector_view<T>;
    using V = vecmem::data::vector_view<T>;
    enum Kind { HostVec, StdVec, Buffer, Raw } kind;
    bool dev = false;
    vecmem::jagged_vector<T> hv;
    std::vector<std::vector<T>> sv;
    vecmem::data::jagged_vector_buffer<T> buf;
    vecmem::data::jagged_vector_data<T> data;
    JV rawv;
    std::vector<V> raw_layout;
    struct Piece {
        char *p;
        std::size_t n;
        bool dev;
    };
    std::vector<Piece> pieces;
    std::vector<std::string> model;

    explicit Jag(World &w_) : w(w_), hv(&w_.host), rawv(0, nullptr) {}
    Jag(const Jag &) = delete;
    ~Jag() {
        for (auto &p : pieces)
            w.mr(p.dev).deallocate(p.p, p.n, 64);
    }
    bool growable() const { return kind == HostVec || kind == StdVec; }
    const char *name() const {
        return kind == HostVec ? "host jagged vector" : kind == StdVec ? "std::vector of vectors" : kind == Buffer ? "jagged buffer" : "jagged view";
    }
    JV view() {
        switch (kind) {
            case HostVec:
                return keep(vecmem::get_data(hv, &w.host));
            case StdVec:
                return keep(vecmem::get_data(sv, &w.host));
            case Buffer:
                return vecmem::get_data(buf);
            default:
                return rawv;
        }
    }
    /// Descriptions of a vector live until a different one is made
    JV keep(vecmem::data::jagged_vector_data<T> &&d) {
        bool same = d.size() == data.size();
        for (std::size_t i = 0; same && i < d.size(); ++i)
            same = d.host_ptr()[i] == data.host_ptr()[i];
        if (!same)
            data = std::move(d);
        return data;
    }
    std::size_t rows() const { return model.size(); }
    std::size_t size(std::size_t i) const { return model[i].size() / sizeof(T); }
    bool resizable() {
        auto v = view();
        return v.size() > 0 && v.host_ptr()[0].size_ptr() != nullptr;
    }
    std::string shape() {
        std::string s = "{";
        auto v = view();
        for (std::size_t i = 0; i < rows(); ++i)
            s += (i ? "," : "") + std::to_string(size(i)) + "/" + std::to_string(v.host_ptr()[i].capacity());
        return s + "}";
    }
    char *piece(bool d, std::size_t n) {
        char *p = w.raw(d, n);
        pieces.push_back({p, n ? n : 1, d});
        return p;
    }
    void make(const std::vector<std::size_t> &caps) {
        Src &src = w.src;
        kind = static_cast<Kind>(src.draw(4));
        bool res = src.coin();
        dev = !growable() && src.coin();
        std::size_t n = caps.size();
        switch (kind) {
            case HostVec:
                for (auto c : caps)
                    hv.emplace_back().resize(c);
                break;
            case StdVec:
                for (auto c : caps)
                    sv.emplace_back().resize(c);
                break;
            case Buffer: {
                bool split = dev && w.async ? true : src.coin();
                if (split && !dev && w.async)
                    split = false;
                vecmem::data::jagged_vector_buffer<T> b(caps, w.mr(dev), split ? &w.host : nullptr,
                                                        res ? buffer_type::resizable : buffer_type::fixed_size);
                buf = std::move(b);
                if (res || split || src.coin())
                    w.copy().setup(view())->wait();
                break;
            }
            default: {
                // rows anywhere: adjacent or scattered, in any order
                std::vector<std::size_t> order(n);
                for (std::size_t i = 0; i < n; ++i)
                    order[i] = i;
                if (src.chance(1, 3))
                    for (std::size_t i = n; i > 1; --i)
                        std::swap(order[i - 1], order[w.pick(i)]);
                std::vector<std::size_t> off(n);
                std::size_t pos = src.draw(2) * sizeof(T);
                bool gaps = src.coin();
                for (std::size_t k : order) {
                    if (gaps && w.odds(1, 3))
                        pos += sizeof(T) * (1 + w.pick(2));
                    off[k] = pos;
                    pos += caps[k] * sizeof(T);
                }
                char *mem = piece(dev, pos + src.draw(2) * sizeof(T));
                SZ *sizes = res ? reinterpret_cast<SZ *>(piece(dev, n * sizeof(SZ))) : nullptr;
                for (std::size_t i = 0; i < n; ++i) {
                    T *p = reinterpret_cast<T *>(mem + off[i]);
                    if (caps[i] == 0 && w.odds(1, 2))
                        p = nullptr;
                    raw_layout.push_back(V(static_cast<SZ>(caps[i]), sizes ? sizes + i : nullptr, p));
                }
                DeviceUpstream::Open o(w.dev);
                if (sizes)
                    memset(sizes, 0, n * sizeof(SZ));
                V *dl = raw_layout.data();
                if (dev && n > 0) {
                    dl = reinterpret_cast<V *>(piece(true, n * sizeof(V)));
                    memcpy(static_cast<void *>(dl), raw_layout.data(), n * sizeof(V));
                }
                rawv = dev ? JV(n, dl, raw_layout.data()) : JV(n, dl);
            }
        }
        adopt();
        PBT_TRACE(src, "%s%s %s %s", resizable() ? "resizable " : "", dev ? "device" : "host", name(), shape().c_str());
        if (src.chance(3, 4))
            scribble();
        w.settle();
    }
    void adopt() {
        DeviceUpstream::Open o(w.dev);
        auto v = view();
        model.clear();
        for (std::size_t i = 0; i < v.size(); ++i)
            model.push_back(bytes(v.host_ptr()[i].ptr(), v.host_ptr()[i].size()));
    }
    void scribble() {
        Src &src = w.src;
        w.settle();
        DeviceUpstream::Open o(w.dev);
        if (growable() && src.chance(1, 4)) {
            std::size_t r = w.rows(6);
            if (kind == HostVec)
                hv.resize(r, vecmem::vector<T>(&w.host));
            else
                sv.resize(r);
        }
        if (growable())
            for (std::size_t i = 0; i < (kind == HostVec ? hv.size() : sv.size()); ++i) {
                std::size_t n = w.len(5);
                if (kind == HostVec)
                    hv[i].resize(n);
                else
                    sv[i].resize(n);
            }
        auto v = view();
        for (std::size_t i = 0; i < v.size(); ++i) {
            V &r = v.host_ptr()[i];
            std::size_t n = r.capacity();
            if (r.size_ptr()) {
                n = w.pick(n + 1);
                *r.size_ptr() = static_cast<SZ>(n);
            }
            for (std::size_t j = 0; j < n; ++j)
                r.ptr()[j] = Conv<T>::make(1 + w.pick(20000));
        }
        adopt();
        PBT_TRACE(src, "write to a %s, now %s", name(), shape().c_str());
        w.reset();
    }
    void verify(const char *when) {
        DeviceUpstream::Open o(w.dev);
        auto v = view();
        PBT_CHECK(v.size() == rows(), "%s: a %s has %zu rows instead of %zu", when, name(), v.size(), rows());
        for (std::size_t i = 0; i < rows(); ++i) {
            V &r = v.host_ptr()[i];
            PBT_CHECK(r.size() == size(i), "%s: row %zu of a %s has %u elements instead of %zu", when, i, name(), r.size(),
                      size(i));
            PBT_CHECK(bytes(r.ptr(), r.size()) == model[i], "%s: the elements of row %zu of a %s %s are wrong", when, i,
                      name(), shape().c_str());
        }
        // the way that device code looks at it
        vecmem::jagged_device_vector<const T> d{vecmem::data::jagged_vector_view<const T>(v)};
        PBT_CHECK(d.size() == rows(), "%s: a device vector over a %s has %zu rows", when, name(), d.size());
        for (std::size_t i = 0; i < rows(); ++i) {
            PBT_CHECK(d[i].size() == size(i), "%s: row %zu of a device vector over a %s has %u elements instead of %zu",
                      when, i, name(), d[i].size(), size(i));
            for (std::size_t j = 0; j < size(i); ++j)
                PBT_CHECK(&d[i][j] == v.host_ptr()[i].ptr() + j, "%s: device side description of row %zu of a %s", when, i,
                          name());
        }
    }
    /// All rows, with all of their capacity
    void touch_rows() {
        auto v = view();
        for (std::size_t i = 0; i < v.size(); ++i)
            w.touch(v.host_ptr()[i].ptr(), v.host_ptr()[i].capacity() * sizeof(T));
    }
    void touch_sizes() {
        auto v = view();
        for (std::size_t i = 0; i < v.size(); ++i)
            if (v.host_ptr()[i].size_ptr())
                w.touch(v.host_ptr()[i].size_ptr(), sizeof(SZ));
    }
};

template <typename T>
void history_jagged(World &w) {
    Src &src = w.src;
    using Slot = Jag<T>;
    std::vector<std::unique_ptr<Slot>> slots;
    // mostly the same numbers of rows, sometimes the same capacities
    w.scale(4096, 70000);
    std::vector<std::size_t> common(w.rows(6));
    for (auto &c : common)
        c = w.len(5);
    auto fresh = [&] {
        std::vector<std::size_t> caps = common;
        if (src.chance(1, 8))
            caps.resize(w.rows(7));
        switch (src.draw(4)) {
            case 0:
                for (auto &c : caps)
                    c = w.len(6);
                break;
            case 1:
                for (auto &c : caps)
                    c += w.pick(3);
                break;
            default:
                break;
        }
        slots.push_back(std::make_unique<Slot>(w));
        slots.back()->make(caps);
    };
    fresh();
    fresh();
    unsigned moved = 0, refused = 0, filled = 0, tos = 0;
    auto verify = [&](const char *when, bool flush = false) {
        w.settle(flush);
        for (auto &s : slots)
            s->verify(when);
        check_sticky();
    };
    auto nonempty = [](Slot &s) {
        unsigned k = 0;
        for (auto &r : s.model)
            k += !r.empty();
        return k >= 2;
    };
    int nops = w.operations();
    for (int op = 0; op < nops; ++op) {
        Slot &a = *slots[src.draw(slots.size())];
        Slot &b = *slots[src.draw(slots.size())];
        switch (src.draw(11)) {
            case 0:
                if (slots.size() < 5)
                    fresh();
                break;
            case 1:
                a.scribble();
                break;
            case 2:
                if (slots.size() > 2) {
                    w.settle();
                    slots.erase(slots.begin() + src.draw(slots.size()));
                    w.reset();
                }
                break;
            case 3:
                if (w.ops & SIZES) {
                    auto v = a.view();
                    vecmem::data::jagged_vector_view<const T> cv = v;
                    auto n = src.coin() ? w.copy().get_sizes(v) : w.copy().get_sizes(cv);
                    PBT_TRACE(src, "get_sizes of a %s", a.name());
                    PBT_CHECK(n.size() == a.rows(), "get_sizes of a %s returns %zu sizes instead of %zu", a.name(), n.size(),
                              a.rows());
                    for (std::size_t i = 0; i < n.size(); ++i)
                        PBT_CHECK(n[i] == a.size(i), "get_sizes of a %s %s returns %u for row %zu", a.name(),
                                  a.shape().c_str(), n[i], i);
                }
                break;
            case 4:
                if (w.ops & SIZES) {
                    auto v = a.view();
                    std::vector<SZ> sizes;
                    bool fits = true;
                    for (std::size_t i = 0; i < v.size(); ++i) {
                        SZ c = v.host_ptr()[i].capacity();
                        sizes.push_back(static_cast<SZ>(w.odds(1, w.big() ? 12 * (v.size() + 1) : 12) ? c + 1 + w.pick(3) : w.pick(c + 1)));
                        fits = fits && sizes.back() <= c;
                    }
                    if (src.chance(1, 10)) {
                        if (sizes.empty() || src.coin())
                            sizes.push_back(0);
                        else
                            sizes.pop_back();
                        fits = false;
                    }
                    PBT_TRACE(src, "set_sizes of a %s %s", a.name(), a.shape().c_str());
                    if (fits) {
                        bool res = a.resizable();
                        // (the sizes have to live until then)
                        auto e = w.copy().set_sizes(sizes, v);
                        e->wait();
                        if (res) {
                            a.touch_sizes();
                            w.settle();
                            DeviceUpstream::Open o(w.dev);
                            for (std::size_t i = 0; i < v.size(); ++i)
                                a.model[i] = bytes(v.host_ptr()[i].ptr(), sizes[i]);
                        }
                    } else {
                        PBT_CHECK(throws<std::length_error>([&] { (void)w.copy().set_sizes(sizes, v); }),
                                  "set_sizes of a %s accepts sizes that it can not have", a.name());
                        verify("after refused sizes", true);
                    }
                }
                break;
            case 5:
                if ((w.ops & TO) && slots.size() < 6) {
                    auto s = std::make_unique<Slot>(w);
                    s->kind = Slot::Buffer;
                    s->dev = src.coin();
                    bool split = w.async ? s->dev : src.coin();
                    PBT_TRACE(src, "a %s buffer from a %s %s", s->dev ? "device" : "host", a.name(), a.shape().c_str());
                    auto t = w.direction(a.dev, s->dev);
                    auto v = a.view();
                    vecmem::data::jagged_vector_view<const T> cv = v;
                    if (src.coin())
                        s->buf = w.copy().to(v, w.mr(s->dev), split ? &w.host : nullptr, t);
                    else
                        s->buf = w.copy().to(cv, w.mr(s->dev), split ? &w.host : nullptr, t);
                    s->model = a.model;
                    slots.push_back(std::move(s));
                    ++tos;
                }
                break;
            case 6:
                if (w.ops & SETUP) {
                    PBT_TRACE(src, "setup a %s", a.name());
                    if (w.async && (a.kind != Slot::Buffer) && a.dev)
                        break;
                    auto v = a.view();
                    bool res = a.resizable();
                    if (!w.async || a.dev == (v.ptr() != v.host_ptr())) {
                        w.start([&] { return w.copy().setup(v); });
                        if (res) {
                            a.touch_sizes();
                            for (auto &r : a.model)
                                r.clear();
                        }
                        ++filled;
                    }
                }
                break;
            case 7:
                if (w.ops & FILL) {
                    int c = src.pick({0, 1, 0x7f, 0xff, -1});
                    PBT_TRACE(src, "fill a %s %s with %d", a.name(), a.shape().c_str(), c);
                    auto v = a.view();
                    w.start([&] { return w.copy().memset(v, c); });
                    a.touch_rows();
                    if (nonempty(a))
                        ++filled;
                    for (auto &r : a.model)
                        r.assign(r.size(), static_cast<char>(c));
                    if (src.coin()) {
                        w.settle();
                        DeviceUpstream::Open o(w.dev);
                        for (std::size_t i = 0; i < v.size(); ++i) {
                            auto &r = v.host_ptr()[i];
                            PBT_CHECK(bytes(r.ptr(), r.capacity()) ==
                                          std::string(r.capacity() * sizeof(T), static_cast<char>(c)),
                                      "memset did not fill all of the capacity of row %zu of a %s", i, a.name());
                        }
                    }
                }
                break;
            default: {
                if (!(w.ops & COPY) || &a == &b)
                    break;
                vecmem::data::jagged_vector_view<const T> from = a.view();
                bool into = b.growable() && src.coin();
                PBT_TRACE(src, "copy a %s %s to a %s %s%s", a.name(), a.shape().c_str(), b.name(), b.shape().c_str(),
                          into ? " (resizing it)" : "");
                auto t = w.direction(a.dev, b.dev, into);
                if (into) {
                    w.settle();
                    if (b.kind == Slot::HostVec) {
                        w.touch(b.hv.data(), b.hv.capacity() * sizeof(b.hv[0]));
                        for (auto &r : b.hv)
                            w.touch(r.data(), r.capacity() * sizeof(T));
                        w.start([&] { return w.copy()(from, b.hv, t); });
                        for (auto &r : b.hv)
                            PBT_CHECK(r.get_allocator().resource() == &w.host, "a row does not use the vector's resource");
                    } else
                        w.start([&] { return w.copy()(from, b.sv, t); });
                    b.model = a.model;
                    moved += nonempty(a);
                    break;
                }
                auto to = b.view();
                bool fits = a.rows() <= b.rows();
                for (std::size_t i = 0; fits && i < a.rows(); ++i)
                    fits = a.size(i) <= to.host_ptr()[i].capacity();
                if (fits && a.rows() < b.rows())
                    break;
                if (!fits) {
                    if (a.rows() < b.rows())
                        break;
                    PBT_CHECK(throws<std::length_error>([&] { (void)w.copy()(from, to, t); }),
                              "copying a %s %s to a %s %s does not throw", a.name(), a.shape().c_str(), b.name(),
                              b.shape().c_str());
                    verify("after a refused copy", true);
                    ++refused;
                    break;
                }
                bool res = b.resizable();
                w.start([&] { return w.copy()(from, to, t); });
                b.touch_rows();
                b.touch_sizes();
                if (res)
                    b.model = a.model;
                else {
                    // what is behind the copied elements in a row may have changed
                    std::vector<std::string> want = a.model;
                    w.settle();
                    b.adopt();
                    for (std::size_t i = 0; i < b.rows(); ++i)
                        b.model[i].replace(0, want[i].size(), want[i]);
                }
                moved += nonempty(a);
            }
        }
        if (src.coin())
            verify("after an operation");
    }
    verify("at the end");
    if ((moved >= 1 || tos >= 2 || refused || filled >= 2) && w.interesting())
        src.nontrivial();
    if (refused)
        src.label("refused");
    slots.clear();
    check_sticky();
    w.host.expect_balanced("at the end");
    w.dev.expect_balanced("at the end");
}

// --------------------------------------------------------------------------------------------- SoA containers
template <typename BASE>
struct Plain : public BASE {
    using BASE::BASE;
};

template <typename... VS>
struct Soa {
    using C = vecmem::edm::container<Plain, VS...>;
    using schema = typename C::schema_type;
    static constexpr std::size_t N = sizeof...(VS);
    template <std::size_t I>
    using Var = std::tuple_element_t<I, std::tuple<VS...>>;
    template <std::size_t I>
    using T = typename Var<I>::type;
    template <std::size_t I>
    static constexpr int kind = vecmem::edm::type::details::is_scalar<Var<I>>::value           ? 0
                                : vecmem::edm::type::details::is_jagged_vector<Var<I>>::value ? 2
                                                                                              : 1;
    static constexpr bool jagged = std::disjunction_v<vecmem::edm::type::details::is_jagged_vector<VS>...>;
    static constexpr bool vectors = std::disjunction_v<vecmem::edm::type::details::is_vector<VS>...>;
    template <typename F, std::size_t... I>
    static void each(F f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>()), ...);
    }
    template <typename F>
    static void each(F f) {
        each(f, std::index_sequence_for<VS...>{});
    }
    /// All contents, as bytes
    struct Model {
        std::size_t n = 0;
        std::string scalar[N];
        std::vector<std::string> vec[N];
        std::vector<std::vector<std::string>> jag[N];
    };

    struct Slot {
        World &w;
        bool is_host = false, dev = false, resizable = false;
        std::unique_ptr<typename C::host> h;
        typename C::data hdata;
        typename C::buffer buf;
        std::vector<std::size_t> caps;
        Model m;
        explicit Slot(World &w_) : w(w_) {}
        Slot(const Slot &) = delete;
        const char *name() const {
            return is_host ? "host container" : resizable ? "resizable buffer" : "fixed buffer";
        }
        typename C::view view() {
            if (is_host) {
                // (descriptions of a container live until a different one is made)
                typename C::data d = vecmem::get_data(*h, &w.host);
                typename C::view v = d, old = hdata;
                bool same = v.capacity() == old.capacity();
                each([&](auto ic) {
                    constexpr std::size_t I = ic;
                    auto &x = v.template get<I>();
                    auto &y = old.template get<I>();
                    if constexpr (kind<I> != 2)
                        same = same && x == y;
                    else
                        for (std::size_t i = 0; same && i < x.size(); ++i)
                            same = x.host_ptr()[i] == y.host_ptr()[i];
                });
                if (!same)
                    hdata = std::move(d);
                return hdata;
            }
            return vecmem::get_data(buf);
        }
        std::string shape() {
            std::string s = std::to_string(m.n);
            if (!is_host)
                s += "/" + std::to_string(caps.size());
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                if constexpr (kind<I> == 2) {
                    s += " {";
                    for (std::size_t i = 0; i < m.jag[I].size(); ++i)
                        s += (i ? "," : "") + std::to_string(m.jag[I][i].size()) +
                             (is_host ? "" : "/" + std::to_string(caps[i]));
                    s += "}";
                }
            });
            return s;
        }
        void make(const std::vector<std::size_t> &caps_) {
            Src &src = w.src;
            caps = caps_;
            is_host = src.chance(1, 3);
            if (is_host) {
                h = std::make_unique<typename C::host>(w.host);
                if constexpr (vectors)
                    h->resize(caps.size());
                each([&](auto ic) {
                    constexpr std::size_t I = ic;
                    if constexpr (kind<I> == 2)
                        for (std::size_t i = 0; i < caps.size(); ++i)
                            h->template get<I>()[i].resize(caps[i]);
                });
            } else {
                dev = src.coin();
                resizable = vectors && src.coin();
                auto type = resizable ? buffer_type::resizable : buffer_type::fixed_size;
                bool split = w.async ? dev : src.coin();
                if constexpr (jagged) {
                    typename C::buffer b(caps, w.mr(dev), split ? &w.host : nullptr, type);
                    buf = std::move(b);
                } else {
                    typename C::buffer b(static_cast<SZ>(caps.size()), w.mr(dev), type);
                    buf = std::move(b);
                }
                if (resizable || split || src.coin())
                    w.copy().setup(view())->wait();
            }
            m = read();
            PBT_TRACE(src, "%s %s %s", dev ? "device" : "host", name(), shape().c_str());
            if (src.chance(3, 4))
                scribble();
            w.settle();
        }
        /// The contents, through the host accessible description
        Model read() {
            DeviceUpstream::Open o(w.dev);
            Model r;
            auto v = view();
            if constexpr (vectors)
                r.n = resizable && !jagged ? *reinterpret_cast<const SZ *>(v.size().ptr()) : v.capacity();
            PBT_CHECK(r.n <= v.capacity() || !vectors, "a %s has size %zu, and capacity %u", name(), r.n, v.capacity());
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                auto &x = v.template get<I>();
                if constexpr (kind<I> == 0)
                    r.scalar[I] = bytes(x, 1);
                else if constexpr (kind<I> == 1) {
                    for (std::size_t i = 0; i < r.n; ++i)
                        r.vec[I].push_back(bytes(x.ptr() + i, 1));
                } else
                    for (std::size_t i = 0; i < r.n; ++i) {
                        auto &row = x.host_ptr()[i];
                        PBT_CHECK(row.size() <= row.capacity(), "row %zu of a %s has size %u and capacity %u", i, name(),
                                  row.size(), row.capacity());
                        std::vector<std::string> e;
                        for (std::size_t j = 0; j < row.size(); ++j)
                            e.push_back(bytes(row.ptr() + j, 1));
                        r.jag[I].push_back(e);
                    }
            });
            return r;
        }
        void scribble() {
            Src &src = w.src;
            w.settle();
            DeviceUpstream::Open o(w.dev);
            if (is_host && vectors && src.coin()) {
                std::size_t n = w.rows(6);
                if constexpr (vectors)
                    h->resize(n);
                each([&](auto ic) {
                    constexpr std::size_t I = ic;
                    if constexpr (kind<I> == 2)
                        for (std::size_t i = 0; i < n; ++i)
                            h->template get<I>()[i].resize(w.len(5));
                });
            }
            auto v = view();
            std::size_t n = v.capacity();
            if (resizable && !jagged) {
                n = w.pick(n + 1);
                *reinterpret_cast<SZ *>(const_cast<char *>(v.size().ptr())) = static_cast<SZ>(n);
            }
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                auto &x = v.template get<I>();
                auto value = [&] { return Conv<T<I>>::make(1 + w.pick(20000)); };
                if constexpr (kind<I> == 0)
                    *x = value();
                else if constexpr (kind<I> == 1) {
                    for (std::size_t i = 0; i < n; ++i)
                        x.ptr()[i] = value();
                } else
                    for (std::size_t i = 0; i < n; ++i) {
                        auto &row = x.host_ptr()[i];
                        std::size_t k = row.capacity();
                        if (row.size_ptr()) {
                            k = w.pick(k + 1);
                            *row.size_ptr() = static_cast<SZ>(k);
                        }
                        for (std::size_t j = 0; j < k; ++j)
                            row.ptr()[j] = value();
                    }
            });
            m = read();
            PBT_TRACE(src, "write to a %s, now %s", name(), shape().c_str());
            w.reset();
        }
        void same(const Model &r, const char *when, const char *how) {
            PBT_CHECK(r.n == m.n, "%s: a %s has %zu elements instead of %zu%s", when, name(), r.n, m.n, how);
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                PBT_CHECK(r.scalar[I] == m.scalar[I], "%s: scalar %zu of a %s is wrong%s", when, I, name(), how);
                PBT_CHECK(r.vec[I] == m.vec[I], "%s: the elements of variable %zu of a %s are wrong%s", when, I, name(), how);
                for (std::size_t i = 0; i < m.jag[I].size(); ++i) {
                    PBT_CHECK(r.jag[I][i].size() == m.jag[I][i].size(),
                              "%s: row %zu of variable %zu of a %s has %zu elements instead of %zu%s", when, i, I, name(),
                              r.jag[I][i].size(), m.jag[I][i].size(), how);
                    PBT_CHECK(r.jag[I][i] == m.jag[I][i], "%s: row %zu of variable %zu of a %s is wrong%s", when, i, I,
                              name(), how);
                }
            });
        }
        void verify(const char *when) {
            same(read(), when, "");
            // the way that device code looks at it
            DeviceUpstream::Open o(w.dev);
            auto v = view();
            typename C::const_view cv = v;
            typename C::const_device d(cv);
            Model r;
            if constexpr (vectors)
                r.n = d.size();
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                auto &x = d.template get<I>();
                if constexpr (kind<I> == 0)
                    r.scalar[I] = bytes(&x, 1);
                else {
                    PBT_CHECK(x.size() == r.n, "%s: on the device, variable %zu of a %s has %zu elements instead of %zu",
                              when, I, name(), static_cast<std::size_t>(x.size()), r.n);
                    for (std::size_t i = 0; i < r.n; ++i)
                        if constexpr (kind<I> == 1)
                            r.vec[I].push_back(bytes(&x[i], 1));
                        else {
                            std::vector<std::string> e;
                            auto row = x[i];
                            for (std::size_t j = 0; j < row.size(); ++j)
                                e.push_back(bytes(&row[j], 1));
                            r.jag[I].push_back(e);
                        }
                }
            });
            same(r, when, " (on the device)");
        }
        /// Memory that a copy to this container may write
        void touch() {
            auto v = view();
            w.touch(v.payload().ptr(), v.payload().capacity());
            w.touch(v.size().ptr(), v.size().capacity());
            each([&](auto ic) {
                constexpr std::size_t I = ic;
                auto &x = v.template get<I>();
                if constexpr (kind<I> == 0)
                    w.touch(x, sizeof(T<I>));
                else if constexpr (kind<I> == 1)
                    w.touch(x.ptr(), x.capacity() * sizeof(T<I>));
                else
                    for (std::size_t i = 0; i < x.size(); ++i)
                        w.touch(x.host_ptr()[i].ptr(), x.host_ptr()[i].capacity() * sizeof(T<I>));
            });
            if (is_host)
                each([&](auto ic) {
                    constexpr std::size_t I = ic;
                    if constexpr (kind<I> != 0) {
                        auto &x = h->template get<I>();
                        w.touch(x.data(), x.capacity() * sizeof(x[0]));
                        if constexpr (kind<I> == 2)
                            for (auto &row : x)
                                w.touch(row.data(), row.capacity() * sizeof(T<I>));
                    }
                });
        }
    };

    static void history(World &w) {
        Src &src = w.src;
        std::vector<std::unique_ptr<Slot>> slots;
        w.scale(1024, jagged ? 2048 : 0);
        std::vector<std::size_t> common(vectors ? w.rows(6) : 0);
        for (auto &c : common)
            c = w.len(5);
        auto fresh = [&] {
            std::vector<std::size_t> caps = common;
            if (vectors && src.chance(1, 4))
                caps.resize(w.rows(7));
            if (jagged)
                switch (src.draw(5)) {
                    case 0:
                        for (auto &c : caps)
                            c = w.len(6);
                        break;
                    case 1:
                        for (auto &c : caps)
                            c += w.pick(3);
                        break;
                    case 2:
                        // the same total
                        for (std::size_t i = caps.size(); i > 1; --i)
                            std::swap(caps[i - 1], caps[w.pick(i)]);
                        break;
                    default:
                        break;
                }
            slots.push_back(std::make_unique<Slot>(w));
            slots.back()->make(caps);
        };
        fresh();
        fresh();
        unsigned moved = 0, refused = 0, filled = 0;
        auto verify = [&](const char *when, bool flush = false) {
            w.settle(flush);
            for (auto &s : slots)
                s->verify(when);
            check_sticky();
        };
        int nops = w.operations();
        for (int op = 0; op < nops; ++op) {
            Slot &a = *slots[src.draw(slots.size())];
            Slot &b = *slots[src.draw(slots.size())];
            switch (src.draw(10)) {
                case 0:
                    if (slots.size() < 5)
                        fresh();
                    break;
                case 1:
                    a.scribble();
                    break;
                case 2:
                    if (slots.size() > 2) {
                        w.settle();
                        slots.erase(slots.begin() + src.draw(slots.size()));
                        w.reset();
                    }
                    break;
                case 3:
                    if (w.ops & SIZES) {
                        auto v = a.view();
                        PBT_TRACE(src, "get_size of a %s", a.name());
                        typename C::const_view cv = v;
                        SZ n = src.coin() ? w.copy().get_size(v) : w.copy().get_size(cv);
                        PBT_CHECK(n == a.m.n, "get_size of a %s returns %u instead of %zu", a.name(), n, a.m.n);
                    }
                    break;
                case 4:
                    if ((w.ops & SETUP) && !a.is_host) {
                        PBT_TRACE(src, "setup a %s %s", a.name(), a.shape().c_str());
                        auto v = a.view();
                        w.start([&] { return w.copy().setup(v); });
                        w.touch(v.size().ptr(), v.size().capacity());
                        if (a.resizable) {
                            if (!jagged)
                                a.m.n = 0;
                            each([&](auto ic) {
                                constexpr std::size_t I = ic;
                                if (!jagged)
                                    a.m.vec[I].clear();
                                for (auto &r : a.m.jag[I])
                                    r.clear();
                            });
                        }
                        ++filled;
                    }
                    break;
                case 5:
                    if (w.ops & FILL) {
                        int c = src.pick({0, 1, 0x7f, 0xff, -1});
                        PBT_TRACE(src, "fill a %s %s with %d", a.name(), a.shape().c_str(), c);
                        auto v = a.view();
                        w.start([&] { return w.copy().memset(v, c); });
                        auto sz = v.size();
                        w.touch(v.payload().ptr(), v.payload().capacity());
                        each([&](auto ic) {
                            constexpr std::size_t I = ic;
                            auto &x = v.template get<I>();
                            auto fill = [&](std::string &s) { s.assign(s.size(), static_cast<char>(c)); };
                            fill(a.m.scalar[I]);
                            for (auto &e : a.m.vec[I])
                                fill(e);
                            for (auto &r : a.m.jag[I])
                                for (auto &e : r)
                                    fill(e);
                            if constexpr (kind<I> == 0)
                                w.touch(x, sizeof(T<I>));
                            else if constexpr (kind<I> == 1)
                                w.touch(x.ptr(), x.capacity() * sizeof(T<I>));
                            else
                                for (std::size_t i = 0; i < x.size(); ++i)
                                    w.touch(x.host_ptr()[i].ptr(), x.host_ptr()[i].capacity() * sizeof(T<I>));
                        });
                        if (src.coin()) {
                            w.settle();
                            DeviceUpstream::Open o(w.dev);
                            each([&](auto ic) {
                                constexpr std::size_t I = ic;
                                auto &x = v.template get<I>();
                                auto full = [&](const T<I> *p, std::size_t n) {
                                    PBT_CHECK(bytes(p, n) == std::string(n * sizeof(T<I>), static_cast<char>(c)),
                                              "memset did not fill all of variable %zu of a %s", I, a.name());
                                };
                                if constexpr (kind<I> == 0)
                                    full(x, 1);
                                else if constexpr (kind<I> == 1)
                                    full(x.ptr(), x.capacity());
                                else
                                    for (std::size_t i = 0; i < x.size(); ++i)
                                        full(x.host_ptr()[i].ptr(), x.host_ptr()[i].capacity());
                            });
                        }
                        ++filled;
                    }
                    break;
                default: {
                    if (!(w.ops & COPY) || &a == &b)
                        break;
                    bool into = b.is_host && src.coin();
                    PBT_TRACE(src, "copy a %s %s to a %s %s%s", a.name(), a.shape().c_str(), b.name(), b.shape().c_str(),
                              into ? " (resizing it)" : "");
                    auto t = w.direction(a.dev, b.dev, into);
                    typename C::const_view from = a.view();
                    if (into) {
                        w.settle();
                        b.touch();
                        w.start([&] { return w.copy()(from, *b.h, t); });
                        b.touch();
                        b.m = a.m;
                        moved += a.m.n >= 2 || !vectors;
                        break;
                    }
                    auto to = b.view();
                    std::size_t have = to.capacity();
                    bool fits = a.m.n <= have;
                    if (jagged && a.m.n < have)
                        break;
                    each([&](auto ic) {
                        constexpr std::size_t I = ic;
                        if constexpr (kind<I> == 2)
                            for (std::size_t i = 0; fits && i < a.m.n; ++i)
                                fits = a.m.jag[I][i].size() <= to.template get<I>().host_ptr()[i].capacity();
                    });
                    if (!fits) {
                        PBT_CHECK(throws<std::length_error>([&] { (void)w.copy()(from, to, t); }),
                                  "copying a %s %s to a %s %s does not throw", a.name(), a.shape().c_str(), b.name(),
                                  b.shape().c_str());
                        b.touch();
                        w.settle(true);
                        // its contents are not promised, but they have to make sense
                        b.m = b.read();
                        verify("after a refused copy");
                        ++refused;
                        break;
                    }
                    w.start([&] { return w.copy()(from, to, t); });
                    b.touch();
                    w.settle();
                    Model want = a.m;
                    if (!b.resizable) {
                        // what is behind the copied elements may have changed
                        want = b.read();
                        each([&](auto ic) {
                            constexpr std::size_t I = ic;
                            want.scalar[I] = a.m.scalar[I];
                            std::copy(a.m.vec[I].begin(), a.m.vec[I].end(), want.vec[I].begin());
                            for (std::size_t i = 0; i < a.m.jag[I].size(); ++i)
                                std::copy(a.m.jag[I][i].begin(), a.m.jag[I][i].end(), want.jag[I][i].begin());
                        });
                    }
                    b.m = want;
                    moved += a.m.n >= 2 || !vectors;
                }
            }
            if (src.coin())
                verify("after an operation");
        }
        verify("at the end");
        if ((moved >= 1 || refused || filled >= 2) && w.interesting())
            src.nontrivial();
        if (refused)
            src.label("refused");
        slots.clear();
        check_sticky();
        w.host.expect_balanced("at the end");
        w.dev.expect_balanced("at the end");
    }
};

// ------------------------------------------------------------------------------------------------- instances
inline void any_1d(World &w) {
    switch (w.src.draw(5)) {
        case 0:
            return history_1d<int>(w);
        case 1:
            return history_1d<char>(w);
        case 2:
            return history_1d<double>(w);
        case 3:
            return history_1d<Pod<3, 1>>(w);
        default:
            return history_1d<Pod<64, 64>>(w);
    }
}
inline void any_jagged(World &w) {
    switch (w.src.draw(5)) {
        case 0:
            return history_jagged<int>(w);
        case 1:
            return history_jagged<char>(w);
        case 2:
            return history_jagged<double>(w);
        case 3:
            return history_jagged<Pod<3, 1>>(w);
        default:
            return history_jagged<Pod<64, 64>>(w);
    }
}
inline void any_soa(World &w) {
    namespace vt = vecmem::edm::type;
    switch (w.src.draw(10)) {
        case 0:
            return Soa<vt::vector<int>, vt::vector<double>, vt::vector<char>>::history(w);
        case 1:
            return Soa<vt::scalar<char>, vt::vector<Pod<7, 1>>, vt::scalar<double>, vt::vector<float>>::history(w);
        case 2:
            return Soa<vt::jagged_vector<char>, vt::scalar<float>, vt::vector<short>, vt::jagged_vector<double>>::history(w);
        case 3:
            return Soa<vt::scalar<int>, vt::jagged_vector<int>>::history(w);
        case 4:
            return Soa<vt::scalar<int>, vt::scalar<double>>::history(w);
        case 5:
            return Soa<vt::jagged_vector<int>>::history(w);
        case 6:
            return Soa<vt::vector<char>, vt::vector<uint64_t>>::history(w);
        case 7:
            return Soa<vt::vector<char>>::history(w);
        case 8:
            return Soa<vt::scalar<char>>::history(w);
        default:
            return Soa<vt::vector<float>, vt::jagged_vector<Pod<7, 1>>, vt::jagged_vector<int>, vt::vector<Pod<64, 64>>,
                       vt::scalar<short>>::history(w);
    }
}
}  // namespace cw
}  // namespace pbt
