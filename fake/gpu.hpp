// A model of accelerator runtimes: devices, memory of different kinds, streams that run late, events, injected errors.
// The headers next to this one put the parts of the CUDA, HIP and SYCL programming interfaces on top of it that the
// back ends of the library use (and some more), so that those can be run, and judged, on the host.
#pragma once
#include <pthread.h>

#include <cstddef>
#include <cstdint>
#include <cstring>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <vector>

#include "copyworld.hpp"

namespace gpu {
enum Api { CUDA, HIP, SYCL };
enum Kind : int { DEVICE, HOST, MANAGED };
inline const char *kind_name(Kind k) { return k == DEVICE ? "device" : k == HOST ? "host" : "managed"; }
inline const char *api_name(Api a) { return a == CUDA ? "CUDA" : a == HIP ? "HIP" : "SYCL"; }

struct Block {
    Api api;
    Kind kind;
    int device;        // that was the current one
    std::size_t size, align;
    const void *context;
};
struct Op {
    bool fill;
    std::size_t size;
    const void *from;
    void *to;
    int value;
    uint64_t id;
    std::vector<uint64_t> after;  // operations that have to be done before
};
/// A stream, or queue. Lives as long as the runtime, for its use after its end to be noticed.
struct Stream {
    Api api;
    int device;
    uint64_t id;
    bool in_order = true;
    bool destroyed = false;
    bool blocking = true;
    unsigned issued = 0;
    std::deque<Op> queue;
};
struct Event {
    Api api;
    int device;
    bool destroyed = false;
    Stream *stream = nullptr;  // where it was recorded
    uint64_t upto = 0;         // the operations before this one have to be done
};

/// Everything about the devices of one run
struct Runtime {
    static Runtime *&current() {
        static Runtime *r = nullptr;
        return r;
    }
    static Runtime &get() {
        if (current() == nullptr) {
            fprintf(stderr, "no runtime\n");
            abort();
        }
        return *current();
    }
    pbt::Src &src;
    pbt::ModelUpstream &host;
    pbt::cw::DeviceUpstream &dev;
    int devices[3] = {1, 1, 1};
    int active[3] = {0, 0, 0};
    std::map<uintptr_t, Block> blocks;
    std::vector<std::unique_ptr<Stream>> streams;
    std::vector<std::unique_ptr<Event>> events;
    Stream *legacy[3] = {nullptr, nullptr, nullptr};  // the default streams
    uint64_t next_op = 1, done_ops = 0, late_ops = 0;
    uint64_t calls = 0;             // that can be made to fail
    std::set<uint64_t> fail_calls;  // which of them do
    std::string failed;             // the name of the last one that did
    uint64_t max_alloc = std::size_t(1) << 20;
    bool lazy = true;  // operations may wait in their stream
    bool no_failures = false;  // (for what is run by destructors)
    std::set<uint64_t> async_errors;  // operations that an error is reported for when they are waited for

    Runtime(pbt::Src &s, pbt::ModelUpstream &h, pbt::cw::DeviceUpstream &d) : src(s), host(h), dev(d) {
        current() = this;
    }
    ~Runtime() { current() = nullptr; }
    Runtime(const Runtime &) = delete;

    /// Is this call made to fail?
    bool fails(const char *what) {
        if (!no_failures && fail_calls.count(calls++)) {
            failed = what;
            PBT_TRACE(src, "%s fails", what);
            return true;
        }
        return false;
    }

    // ------------------------------------------------------------------------------------------------------ memory
    pbt::ModelUpstream &backing(Kind k) {
        if (k == DEVICE)
            return dev;
        return host;
    }
    void *alloc(Api a, Kind k, std::size_t n, std::size_t align, int device, const void *context) {
        if (n > max_alloc)
            return nullptr;
        try {
            void *p = backing(k).allocate(n, align);
            blocks[reinterpret_cast<uintptr_t>(p)] = {a, k, device, n, align, context};
            return p;
        } catch (const std::bad_alloc &) {
            return nullptr;
        }
    }
    /// @returns whether that was fine
    bool release(Api a, const void *p, bool host_call, bool any_kind, const void *context, const char *fn) {
        auto it = blocks.find(reinterpret_cast<uintptr_t>(p));
        if (it == blocks.end()) {
            pbt::sticky_fail("%s called with %p, which is not allocated", fn, p);
            return false;
        }
        Block b = it->second;
        if (b.api != a || (!any_kind && host_call != (b.kind == HOST))) {
            pbt::sticky_fail("%s called for %s memory of %s", fn, kind_name(b.kind), api_name(b.api));
            return false;
        }
        if (b.context != context) {
            pbt::sticky_fail("%s called with another context than the one that the memory belongs to", fn);
            return false;
        }
        if (a != SYCL && b.kind == DEVICE && b.device != active[a]) {
            pbt::sticky_fail("%s called for memory of device %d with device %d being the current one", fn, b.device, active[a]);
            return false;
        }
        blocks.erase(it);
        backing(b.kind).deallocate(const_cast<void *>(p), b.size, b.align);
        return true;
    }

    // ----------------------------------------------------------------------------------------------------- streams
    Stream *new_stream(Api a, int device, bool in_order = true) {
        streams.push_back(std::make_unique<Stream>());
        Stream *s = streams.back().get();
        s->api = a;
        s->device = device;
        s->in_order = in_order;
        s->id = streams.size();
        return s;
    }
    Stream *default_stream(Api a) {
        if (legacy[a] == nullptr)
            legacy[a] = new_stream(a, 0);
        return legacy[a];
    }
    /// @returns null if it cannot be used
    Stream *use(Stream *s, Api a, const char *fn) {
        if (s == nullptr)
            return default_stream(a);
        for (auto &x : streams)
            if (x.get() == s) {
                if (s->destroyed) {
                    pbt::sticky_fail("%s uses a stream that was destroyed", fn);
                    return nullptr;
                }
                return s;
            }
        pbt::sticky_fail("%s uses something that is not a stream", fn);
        return nullptr;
    }
    Event *use(Event *e, const char *fn) {
        for (auto &x : events)
            if (x.get() == e) {
                if (e->destroyed) {
                    pbt::sticky_fail("%s uses an event that was destroyed", fn);
                    return nullptr;
                }
                return e;
            }
        pbt::sticky_fail("%s uses something that is not an event", fn);
        return nullptr;
    }
    /// Directions: 0 host to device, 1 device to host, 2 host to host, 3 device to device, 4 unknown
    void judge_direction(const void *from, const void *to, int dir) {
        const char *names[] = {"host to device", "device to host", "host to host", "device to device", "unknown"};
        auto managed = [&](const void *p) {
            auto it = blocks.upper_bound(reinterpret_cast<uintptr_t>(p));
            if (it == blocks.begin())
                return false;
            --it;
            return it->second.kind == MANAGED && reinterpret_cast<uintptr_t>(p) < it->first + it->second.size;
        };
        bool f = dev.has(from), t = dev.has(to), fm = managed(from), tm = managed(to);
        bool ok = dir == 4 || (((dir == 0 || dir == 2) ? !f || fm : f || fm) && ((dir == 1 || dir == 2) ? !t || tm : t || tm));
        if (!ok)
            pbt::fail("a raw copy from %s to %s memory is declared as \"%s\"", f ? "device" : "host", t ? "device" : "host",
                      names[dir]);
    }
    uint64_t push(Stream &s, Op op) {
        op.id = next_op++;
        s.queue.push_back(op);
        ++s.issued;
        uint64_t id = op.id;
        if (!lazy)
            run_all(s);
        else if (src.chance(1, 6))
            step(s);
        return id;
    }
    bool is_pending(uint64_t id) const {
        for (auto &s : streams)
            for (auto &o : s->queue)
                if (o.id == id)
                    return true;
        return false;
    }
    std::size_t pending() const {
        std::size_t n = 0;
        for (auto &s : streams)
            n += s->queue.size();
        return n;
    }
    /// Run one operation
    void step(Stream &s) {
        std::vector<std::size_t> can;
        for (std::size_t i = 0; i < s.queue.size(); ++i) {
            bool ok = true;
            for (auto d : s.queue[i].after)
                ok = ok && !is_pending(d);
            if (ok)
                can.push_back(i);
            if (s.in_order)
                break;
        }
        if (can.empty())
            return;
        std::size_t k = can[s.in_order ? 0 : src.draw(can.size())];
        Op op = s.queue[k];
        s.queue.erase(s.queue.begin() + static_cast<std::ptrdiff_t>(k));
        if (next_op > op.id + 1)
            ++late_ops;
        ++done_ops;
        if (op.size == 0)
            return;
        live(op.to, op.size, "writes");
        if (!op.fill)
            live(op.from, op.size, "reads");
        pbt::cw::DeviceUpstream::Open o(dev);
        if (op.fill)
            ::memset(op.to, op.value, op.size);
        else
            ::memmove(op.to, op.from, op.size);
    }
    /// Run those of a stream that come before some other one
    void run_until(Stream &s, uint64_t upto) {
        auto need = [&] {
            for (auto &o : s.queue)
                if (o.id < upto)
                    return true;
            return false;
        };
        while (need()) {
            std::size_t n = pending();
            step(s);
            if (pending() == n) {
                // (waits for something elsewhere)
                for (auto &x : streams)
                    step(*x);
                if (pending() == n)
                    pbt::fail("operations wait for each other");
            }
        }
    }
    void run_all(Stream &s) { run_until(s, UINT64_MAX); }
    void run_op(uint64_t id) {
        while (is_pending(id)) {
            std::size_t n = pending();
            for (auto &x : streams)
                for (auto &o : x->queue)
                    if (o.id == id) {
                        step(*x);
                        goto next;
                    }
        next:
            if (pending() == n)
                for (auto &x : streams)
                    step(*x);
            if (pending() == n)
                pbt::fail("operations wait for each other");
        }
    }
    void run_everything() {
        while (pending() > 0)
            for (auto &x : streams)
                step(*x);
    }
    /// Those that an operation in the default stream waits for
    void run_blocking(Api a) {
        for (auto &s : streams)
            if (s->api == a && s->blocking)
                run_all(*s);
    }
    void live(const void *p, std::size_t n, const char *what) const {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        static uintptr_t lo = 0, hi = 0;
        if (hi == 0) {
            pthread_attr_t at;
            void *addr;
            std::size_t sz;
            pthread_getattr_np(pthread_self(), &at);
            pthread_attr_getstack(&at, &addr, &sz);
            pthread_attr_destroy(&at);
            lo = reinterpret_cast<uintptr_t>(addr);
            hi = lo + sz;
        }
        static const uintptr_t host_base = pbt::Region::get(0).base();
        if (dev.has(p)) {
            if (!dev.contains(p, n))
                pbt::fail("a raw operation %s %zu bytes of device memory that are not allocated (any more)", what, n);
        } else if (a >= host_base && a < host_base + pbt::Region::SIZE) {
            if (!host.contains(p, n))
                pbt::fail("a raw operation %s %zu bytes of host memory that are not allocated (any more)", what, n);
        } else if (a >= lo && a < hi) {
            if (a < reinterpret_cast<uintptr_t>(__builtin_frame_address(0)))
                pbt::fail("a raw operation %s a variable of a function that has returned", what);
        }
        // anything else is judged by AddressSanitizer
    }
    std::size_t live_streams(Api a) const {
        std::size_t n = 0;
        for (auto &s : streams)
            n += s->api == a && !s->destroyed && s.get() != legacy[a];
        return n;
    }
    std::size_t live_events() const {
        std::size_t n = 0;
        for (auto &e : events)
            n += !e->destroyed;
        return n;
    }
};
}  // namespace gpu
