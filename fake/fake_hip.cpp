// Made by gen.py.
#include <hip/hip_runtime_api.h>

#include <cstdio>
#include <gpu.hpp>

hipError_t hipfake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (r.fails(fn) || n == 0)
        return n == 0 ? hipErrorInvalidValue : hipErrorOutOfMemory;
    if (r.devices[gpu::HIP] == 0)
        return hipErrorNoDevice;
    void *x = r.alloc(gpu::HIP, k, n, k == gpu::DEVICE ? 256 : 64, r.active[gpu::HIP], nullptr);
    if (x == nullptr)
        return hipErrorOutOfMemory;
    *p = x;
    return hipSuccess;
}
const char *hipGetErrorString(hipError_t e) {
    switch (e) {
        case hipSuccess:
            return "no error";
        case hipErrorOutOfMemory:
            return "out of memory";
        case hipErrorInvalidDevice:
            return "invalid device ordinal";
        default:
            return "some error";
    }
}
const char *hipGetErrorName(hipError_t) { return "hipError"; }
hipError_t hipGetLastError() { return hipSuccess; }
hipError_t hipPeekAtLastError() { return hipSuccess; }

// ------------------------------------------------------------------------------------------------------------ devices
hipError_t hipGetDeviceCount(int *n) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::HIP] == 0)
        return hipErrorNoDevice;
    *n = r.devices[gpu::HIP];
    return hipSuccess;
}
hipError_t hipGetDevice(int *d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::HIP] == 0)
        return hipErrorNoDevice;
    *d = r.active[gpu::HIP];
    return hipSuccess;
}
hipError_t hipSetDevice(int d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::HIP] == 0)
        return hipErrorNoDevice;
    if (d < 0 || d >= r.devices[gpu::HIP])
        return hipErrorInvalidDevice;
    r.active[gpu::HIP] = d;
    return hipSuccess;
}
hipError_t hipGetDeviceProperties(hipDeviceProp_t *p, int d) {
    auto &r = gpu::Runtime::get();
    if (d < 0 || d >= r.devices[gpu::HIP])
        return hipErrorInvalidDevice;
    std::snprintf(p->name, sizeof p->name, "model %d", d);
    p->pciBusID = p->pciDeviceID = p->pciDomainID = d;
    return hipSuccess;
}
hipError_t hipDeviceSynchronize() {
    auto &r = gpu::Runtime::get();
    for (auto &s : r.streams)
        if (s->api == gpu::HIP && s->device == r.active[gpu::HIP])
            r.run_all(*s);
    return hipSuccess;
}

// ------------------------------------------------------------------------------------------------------------- memory
hipError_t hipfake_free(void *p, bool host, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (p == nullptr)
        return hipSuccess;
    // (frees wait for the device)
    r.run_everything();
    if (!r.release(gpu::HIP, p, host, false, nullptr, fn))
        return hipErrorInvalidValue;
    // what went wrong in earlier operations can be reported here
    return r.fails(fn) ? hipErrorUnknown : hipSuccess;
}
hipError_t hipFree(void *p) { return hipfake_free(p, false, "hipFree"); }
hipError_t hipFreeHost(void *p) { return hipfake_free(p, true, "hipFreeHost"); }
hipError_t hipHostFree(void *p) { return hipfake_free(p, true, "hipHostFree"); }

int hipfake_direction(hipMemcpyKind k) {
    switch (k) {
        case hipMemcpyHostToDevice:
            return 0;
        case hipMemcpyDeviceToHost:
            return 1;
        case hipMemcpyHostToHost:
            return 2;
        case hipMemcpyDeviceToDevice:
            return 3;
        default:
            return 4;
    }
}
hipError_t hipMemcpyAsync(void *to, const void *from, std::size_t n, hipMemcpyKind k, hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::HIP, "hipMemcpyAsync");
    if (st == nullptr || r.fails("hipMemcpyAsync"))
        return hipErrorUnknown;
    r.judge_direction(from, to, hipfake_direction(k));
    r.push(*st, {false, n, from, to, 0, 0, {}});
    return hipSuccess;
}
hipError_t hipMemsetAsync(void *p, int v, std::size_t n, hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::HIP, "hipMemsetAsync");
    if (st == nullptr || r.fails("hipMemsetAsync"))
        return hipErrorUnknown;
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    return hipSuccess;
}
hipError_t hipMemcpy(void *to, const void *from, std::size_t n, hipMemcpyKind k) {
    auto &r = gpu::Runtime::get();
    if (r.fails("hipMemcpy"))
        return hipErrorUnknown;
    r.run_blocking(gpu::HIP);
    r.judge_direction(from, to, hipfake_direction(k));
    gpu::Stream *st = r.default_stream(gpu::HIP);
    r.push(*st, {false, n, from, to, 0, 0, {}});
    r.run_all(*st);
    return hipSuccess;
}
hipError_t hipMemset(void *p, int v, std::size_t n) {
    auto &r = gpu::Runtime::get();
    if (r.fails("hipMemset"))
        return hipErrorUnknown;
    r.run_blocking(gpu::HIP);
    gpu::Stream *st = r.default_stream(gpu::HIP);
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    r.run_all(*st);
    return hipSuccess;
}

// -------------------------------------------------------------------------------------------------- streams and events
hipError_t hipStreamCreateWithFlags(hipStream_t *s, unsigned flags) {
    auto &r = gpu::Runtime::get();
    if (r.fails("hipStreamCreate"))
        return hipErrorUnknown;
    if (r.devices[gpu::HIP] == 0)
        return hipErrorNoDevice;
    *s = r.new_stream(gpu::HIP, r.active[gpu::HIP]);
    (*s)->blocking = (flags & hipStreamNonBlocking) == 0;
    return hipSuccess;
}
hipError_t hipStreamCreate(hipStream_t *s) { return hipStreamCreateWithFlags(s, 0); }
hipError_t hipStreamDestroy(hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::HIP, "hipStreamDestroy");
    if (st == nullptr || s == nullptr)
        return hipErrorInvalidHandle;
    // (what is in it still runs)
    st->destroyed = true;
    return r.fails("hipStreamDestroy") ? hipErrorUnknown : hipSuccess;
}
hipError_t hipStreamSynchronize(hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::HIP, "hipStreamSynchronize");
    if (st == nullptr)
        return hipErrorInvalidHandle;
    r.run_all(*st);
    return r.fails("hipStreamSynchronize") ? hipErrorUnknown : hipSuccess;
}
hipError_t hipStreamQuery(hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::HIP, "hipStreamQuery");
    if (st == nullptr)
        return hipErrorInvalidHandle;
    r.step(*st);
    return st->queue.empty() ? hipSuccess : hipErrorNotReady;
}
hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned) {
    auto &r = gpu::Runtime::get();
    if (r.fails("hipEventCreate"))
        return hipErrorUnknown;
    r.events.push_back(std::make_unique<gpu::Event>());
    *e = r.events.back().get();
    (*e)->api = gpu::HIP;
    (*e)->device = r.active[gpu::HIP];
    return hipSuccess;
}
hipError_t hipEventCreate(hipEvent_t *e) { return hipEventCreateWithFlags(e, 0); }
hipError_t hipEventRecord(hipEvent_t e, hipStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "hipEventRecord");
    gpu::Stream *st = r.use(s, gpu::HIP, "hipEventRecord");
    // "event and stream must be on the same context"
    if (ev == nullptr || st == nullptr || ev->device != st->device)
        return hipErrorInvalidHandle;
    if (r.fails("hipEventRecord"))
        return hipErrorUnknown;
    ev->stream = st;
    ev->upto = r.next_op;
    return hipSuccess;
}
hipError_t hipEventSynchronize(hipEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "hipEventSynchronize");
    if (ev == nullptr)
        return hipErrorInvalidHandle;
    if (ev->stream)
        r.run_until(*ev->stream, ev->upto);
    return r.fails("hipEventSynchronize") ? hipErrorUnknown : hipSuccess;
}
hipError_t hipEventQuery(hipEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "hipEventQuery");
    if (ev == nullptr)
        return hipErrorInvalidHandle;
    if (ev->stream == nullptr)
        return hipSuccess;
    r.step(*ev->stream);
    for (auto &o : ev->stream->queue)
        if (o.id < ev->upto)
            return hipErrorNotReady;
    return hipSuccess;
}
hipError_t hipEventDestroy(hipEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "hipEventDestroy");
    if (ev == nullptr)
        return hipErrorInvalidHandle;
    ev->destroyed = true;
    return hipSuccess;
}
