# writes the headers and sources of the CUDA and HIP interfaces from one text
T = r'''// @API@ runtime interface on top of the model of accelerator runtimes (made by gen.py).
#pragma once
#include <cstddef>
namespace gpu {
struct Stream;
struct Event;
enum Kind : int;
}  // namespace gpu

enum @p@Error_t {
    @p@Success = 0,
    @p@ErrorInvalidValue = 1,
    @p@Error@OOM@ = 2,
    @p@ErrorNoDevice = 100,
    @p@ErrorInvalidDevice = 101,
    @p@ErrorInvalid@RES@Handle = 400,
    @p@ErrorNotReady = 600,
    @p@ErrorUnknown = 999
};
enum @p@MemcpyKind {
    @p@MemcpyHostToHost = 0,
    @p@MemcpyHostToDevice = 1,
    @p@MemcpyDeviceToHost = 2,
    @p@MemcpyDeviceToDevice = 3,
    @p@MemcpyDefault = 4
};
struct @p@DeviceProp@PS@ {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
};
@PSD@
using @p@Stream_t = gpu::Stream *;
using @p@Event_t = gpu::Event *;
enum : unsigned {
    @p@StreamDefault = 0,
    @p@StreamNonBlocking = 1,
    @p@EventDefault = 0,
    @p@EventBlockingSync = 1,
    @p@EventDisableTiming = 2,
    @p@HostAllocDefault = 0,
    @p@HostMallocDefault = 0,
    @p@MemAttachGlobal = 1
};

@p@Error_t @p@fake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn);
const char *@p@GetErrorString(@p@Error_t e);
const char *@p@GetErrorName(@p@Error_t);
@p@Error_t @p@GetLastError();
@p@Error_t @p@PeekAtLastError();
@p@Error_t @p@GetDeviceCount(int *n);
@p@Error_t @p@GetDevice(int *d);
@p@Error_t @p@SetDevice(int d);
@p@Error_t @p@GetDeviceProperties(@p@DeviceProp_t *p, int d);
@p@Error_t @p@DeviceSynchronize();
@p@Error_t @p@fake_free(void *p, bool host, const char *fn);
@p@Error_t @p@Free(void *p);
@p@Error_t @p@FreeHost(void *p);
@p@Error_t @p@HostFree(void *p);
int @p@fake_direction(@p@MemcpyKind k);
@p@Error_t @p@MemcpyAsync(void *to, const void *from, std::size_t n, @p@MemcpyKind k, @p@Stream_t s = nullptr);
@p@Error_t @p@MemsetAsync(void *p, int v, std::size_t n, @p@Stream_t s = nullptr);
@p@Error_t @p@Memcpy(void *to, const void *from, std::size_t n, @p@MemcpyKind k);
@p@Error_t @p@Memset(void *p, int v, std::size_t n);
@p@Error_t @p@StreamCreateWithFlags(@p@Stream_t *s, unsigned flags);
@p@Error_t @p@StreamCreate(@p@Stream_t *s);
@p@Error_t @p@StreamDestroy(@p@Stream_t s);
@p@Error_t @p@StreamSynchronize(@p@Stream_t s);
@p@Error_t @p@StreamQuery(@p@Stream_t s);
@p@Error_t @p@EventCreateWithFlags(@p@Event_t *e, unsigned);
@p@Error_t @p@EventCreate(@p@Event_t *e);
@p@Error_t @p@EventRecord(@p@Event_t e, @p@Stream_t s = nullptr);
@p@Error_t @p@EventSynchronize(@p@Event_t e);
@p@Error_t @p@EventQuery(@p@Event_t e);
@p@Error_t @p@EventDestroy(@p@Event_t e);

template <typename T>
inline @p@Error_t @p@Malloc(T **p, std::size_t n) {
    return @p@fake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(0), "@p@Malloc");
}
template <typename T>
inline @p@Error_t @p@MallocHost(T **p, std::size_t n, unsigned = 0) {
    return @p@fake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "@p@MallocHost");
}
template <typename T>
inline @p@Error_t @p@HostMalloc(T **p, std::size_t n, unsigned = 0) {
    return @p@fake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "@p@HostMalloc");
}
template <typename T>
inline @p@Error_t @p@HostAlloc(T **p, std::size_t n, unsigned = 0) {
    return @p@fake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "@p@HostAlloc");
}
template <typename T>
inline @p@Error_t @p@MallocManaged(T **p, std::size_t n, unsigned = 1) {
    return @p@fake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(2), "@p@MallocManaged");
}
'''
S = r'''// Made by gen.py.
#include <@HDR@>

#include <cstdio>
#include <gpu.hpp>

@p@Error_t @p@fake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (r.fails(fn) || n == 0)
        return n == 0 ? @p@ErrorInvalidValue : @p@Error@OOM@;
    if (r.devices[gpu::@API@] == 0)
        return @p@ErrorNoDevice;
    void *x = r.alloc(gpu::@API@, k, n, k == gpu::DEVICE ? 256 : 64, r.active[gpu::@API@], nullptr);
    if (x == nullptr)
        return @p@Error@OOM@;
    *p = x;
    return @p@Success;
}
const char *@p@GetErrorString(@p@Error_t e) {
    switch (e) {
        case @p@Success:
            return "no error";
        case @p@Error@OOM@:
            return "out of memory";
        case @p@ErrorInvalidDevice:
            return "invalid device ordinal";
        default:
            return "some error";
    }
}
const char *@p@GetErrorName(@p@Error_t) { return "@p@Error"; }
@p@Error_t @p@GetLastError() { return @p@Success; }
@p@Error_t @p@PeekAtLastError() { return @p@Success; }

// ------------------------------------------------------------------------------------------------------------ devices
@p@Error_t @p@GetDeviceCount(int *n) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::@API@] == 0)
        return @p@ErrorNoDevice;
    *n = r.devices[gpu::@API@];
    return @p@Success;
}
@p@Error_t @p@GetDevice(int *d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::@API@] == 0)
        return @p@ErrorNoDevice;
    *d = r.active[gpu::@API@];
    return @p@Success;
}
@p@Error_t @p@SetDevice(int d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::@API@] == 0)
        return @p@ErrorNoDevice;
    if (d < 0 || d >= r.devices[gpu::@API@])
        return @p@ErrorInvalidDevice;
    r.active[gpu::@API@] = d;
    return @p@Success;
}
@p@Error_t @p@GetDeviceProperties(@p@DeviceProp_t *p, int d) {
    auto &r = gpu::Runtime::get();
    if (d < 0 || d >= r.devices[gpu::@API@])
        return @p@ErrorInvalidDevice;
    std::snprintf(p->name, sizeof p->name, "model %d", d);
    p->pciBusID = p->pciDeviceID = p->pciDomainID = d;
    return @p@Success;
}
@p@Error_t @p@DeviceSynchronize() {
    auto &r = gpu::Runtime::get();
    for (auto &s : r.streams)
        if (s->api == gpu::@API@ && s->device == r.active[gpu::@API@])
            r.run_all(*s);
    return @p@Success;
}

// ------------------------------------------------------------------------------------------------------------- memory
@p@Error_t @p@fake_free(void *p, bool host, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (p == nullptr)
        return @p@Success;
    // (frees wait for the device)
    r.run_everything();
    if (!r.release(gpu::@API@, p, host, false, nullptr, fn))
        return @p@ErrorInvalidValue;
    // what went wrong in earlier operations can be reported here
    return r.fails(fn) ? @p@ErrorUnknown : @p@Success;
}
@p@Error_t @p@Free(void *p) { return @p@fake_free(p, false, "@p@Free"); }
@p@Error_t @p@FreeHost(void *p) { return @p@fake_free(p, true, "@p@FreeHost"); }
@p@Error_t @p@HostFree(void *p) { return @p@fake_free(p, true, "@p@HostFree"); }

int @p@fake_direction(@p@MemcpyKind k) {
    switch (k) {
        case @p@MemcpyHostToDevice:
            return 0;
        case @p@MemcpyDeviceToHost:
            return 1;
        case @p@MemcpyHostToHost:
            return 2;
        case @p@MemcpyDeviceToDevice:
            return 3;
        default:
            return 4;
    }
}
@p@Error_t @p@MemcpyAsync(void *to, const void *from, std::size_t n, @p@MemcpyKind k, @p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@MemcpyAsync");
    if (st == nullptr || r.fails("@p@MemcpyAsync"))
        return @p@ErrorUnknown;
    r.judge_direction(from, to, @p@fake_direction(k));
    r.push(*st, {false, n, from, to, 0, 0, {}});
    return @p@Success;
}
@p@Error_t @p@MemsetAsync(void *p, int v, std::size_t n, @p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@MemsetAsync");
    if (st == nullptr || r.fails("@p@MemsetAsync"))
        return @p@ErrorUnknown;
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    return @p@Success;
}
@p@Error_t @p@Memcpy(void *to, const void *from, std::size_t n, @p@MemcpyKind k) {
    auto &r = gpu::Runtime::get();
    if (r.fails("@p@Memcpy"))
        return @p@ErrorUnknown;
    r.run_blocking(gpu::@API@);
    r.judge_direction(from, to, @p@fake_direction(k));
    gpu::Stream *st = r.default_stream(gpu::@API@);
    r.push(*st, {false, n, from, to, 0, 0, {}});
    r.run_all(*st);
    return @p@Success;
}
@p@Error_t @p@Memset(void *p, int v, std::size_t n) {
    auto &r = gpu::Runtime::get();
    if (r.fails("@p@Memset"))
        return @p@ErrorUnknown;
    r.run_blocking(gpu::@API@);
    gpu::Stream *st = r.default_stream(gpu::@API@);
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    r.run_all(*st);
    return @p@Success;
}

// -------------------------------------------------------------------------------------------------- streams and events
@p@Error_t @p@StreamCreateWithFlags(@p@Stream_t *s, unsigned flags) {
    auto &r = gpu::Runtime::get();
    if (r.fails("@p@StreamCreate"))
        return @p@ErrorUnknown;
    if (r.devices[gpu::@API@] == 0)
        return @p@ErrorNoDevice;
    *s = r.new_stream(gpu::@API@, r.active[gpu::@API@]);
    (*s)->blocking = (flags & @p@StreamNonBlocking) == 0;
    return @p@Success;
}
@p@Error_t @p@StreamCreate(@p@Stream_t *s) { return @p@StreamCreateWithFlags(s, 0); }
@p@Error_t @p@StreamDestroy(@p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@StreamDestroy");
    if (st == nullptr || s == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    // (what is in it still runs)
    st->destroyed = true;
    return r.fails("@p@StreamDestroy") ? @p@ErrorUnknown : @p@Success;
}
@p@Error_t @p@StreamSynchronize(@p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@StreamSynchronize");
    if (st == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    r.run_all(*st);
    return r.fails("@p@StreamSynchronize") ? @p@ErrorUnknown : @p@Success;
}
@p@Error_t @p@StreamQuery(@p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@StreamQuery");
    if (st == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    r.step(*st);
    return st->queue.empty() ? @p@Success : @p@ErrorNotReady;
}
@p@Error_t @p@EventCreateWithFlags(@p@Event_t *e, unsigned) {
    auto &r = gpu::Runtime::get();
    if (r.fails("@p@EventCreate"))
        return @p@ErrorUnknown;
    r.events.push_back(std::make_unique<gpu::Event>());
    *e = r.events.back().get();
    (*e)->api = gpu::@API@;
    (*e)->device = r.active[gpu::@API@];
    return @p@Success;
}
@p@Error_t @p@EventCreate(@p@Event_t *e) { return @p@EventCreateWithFlags(e, 0); }
@p@Error_t @p@EventRecord(@p@Event_t e, @p@Stream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "@p@EventRecord");
    gpu::Stream *st = r.use(s, gpu::@API@, "@p@EventRecord");
    // "event and stream must be on the same context"
    if (ev == nullptr || st == nullptr || ev->device != st->device)
        return @p@ErrorInvalid@RES@Handle;
    if (r.fails("@p@EventRecord"))
        return @p@ErrorUnknown;
    ev->stream = st;
    ev->upto = r.next_op;
    return @p@Success;
}
@p@Error_t @p@EventSynchronize(@p@Event_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "@p@EventSynchronize");
    if (ev == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    if (ev->stream)
        r.run_until(*ev->stream, ev->upto);
    return r.fails("@p@EventSynchronize") ? @p@ErrorUnknown : @p@Success;
}
@p@Error_t @p@EventQuery(@p@Event_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "@p@EventQuery");
    if (ev == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    if (ev->stream == nullptr)
        return @p@Success;
    r.step(*ev->stream);
    for (auto &o : ev->stream->queue)
        if (o.id < ev->upto)
            return @p@ErrorNotReady;
    return @p@Success;
}
@p@Error_t @p@EventDestroy(@p@Event_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "@p@EventDestroy");
    if (ev == nullptr)
        return @p@ErrorInvalid@RES@Handle;
    ev->destroyed = true;
    return @p@Success;
}
'''
import os
H = os.path.dirname(os.path.abspath(__file__))
for p, api, path, sub in (
        ("cuda", "CUDA", "cuda_runtime_api.h", {"@OOM@": "MemoryAllocation", "@RES@": "Resource", "@PS@": "", "@PSD@": "using cudaDeviceProp_t = cudaDeviceProp;"}),
        ("hip", "HIP", "hip/hip_runtime_api.h", {"@OOM@": "OutOfMemory", "@RES@": "", "@PS@": "_t", "@PSD@": "static constexpr hipError_t hipErrorMemoryAllocation = hipErrorOutOfMemory;"})):
    t = T.replace("@p@", p).replace("@API@", api)
    for a, b in sub.items():
        t = t.replace(a, b)
    u = S.replace("@p@", p).replace("@API@", api).replace("@HDR@", path)
    for a, b in sub.items():
        u = u.replace(a, b)
    open(os.path.join(H, path), "w").write(t)
    open(os.path.join(H, "fake_" + p + ".cpp"), "w").write(u)
