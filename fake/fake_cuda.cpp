// Made by gen.py.
#include <cuda_runtime_api.h>

#include <cstdio>
#include <gpu.hpp>

cudaError_t cudafake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (r.fails(fn) || n == 0)
        return n == 0 ? cudaErrorInvalidValue : cudaErrorMemoryAllocation;
    if (r.devices[gpu::CUDA] == 0)
        return cudaErrorNoDevice;
    void *x = r.alloc(gpu::CUDA, k, n, k == gpu::DEVICE ? 256 : 64, r.active[gpu::CUDA], nullptr);
    if (x == nullptr)
        return cudaErrorMemoryAllocation;
    *p = x;
    return cudaSuccess;
}
const char *cudaGetErrorString(cudaError_t e) {
    switch (e) {
        case cudaSuccess:
            return "no error";
        case cudaErrorMemoryAllocation:
            return "out of memory";
        case cudaErrorInvalidDevice:
            return "invalid device ordinal";
        default:
            return "some error";
    }
}
const char *cudaGetErrorName(cudaError_t) { return "cudaError"; }
cudaError_t cudaGetLastError() { return cudaSuccess; }
cudaError_t cudaPeekAtLastError() { return cudaSuccess; }

// ------------------------------------------------------------------------------------------------------------ devices
cudaError_t cudaGetDeviceCount(int *n) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::CUDA] == 0)
        return cudaErrorNoDevice;
    *n = r.devices[gpu::CUDA];
    return cudaSuccess;
}
cudaError_t cudaGetDevice(int *d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::CUDA] == 0)
        return cudaErrorNoDevice;
    *d = r.active[gpu::CUDA];
    return cudaSuccess;
}
cudaError_t cudaSetDevice(int d) {
    auto &r = gpu::Runtime::get();
    if (r.devices[gpu::CUDA] == 0)
        return cudaErrorNoDevice;
    if (d < 0 || d >= r.devices[gpu::CUDA])
        return cudaErrorInvalidDevice;
    r.active[gpu::CUDA] = d;
    return cudaSuccess;
}
cudaError_t cudaGetDeviceProperties(cudaDeviceProp_t *p, int d) {
    auto &r = gpu::Runtime::get();
    if (d < 0 || d >= r.devices[gpu::CUDA])
        return cudaErrorInvalidDevice;
    std::snprintf(p->name, sizeof p->name, "model %d", d);
    p->pciBusID = p->pciDeviceID = p->pciDomainID = d;
    return cudaSuccess;
}
cudaError_t cudaDeviceSynchronize() {
    auto &r = gpu::Runtime::get();
    for (auto &s : r.streams)
        if (s->api == gpu::CUDA && s->device == r.active[gpu::CUDA])
            r.run_all(*s);
    return cudaSuccess;
}

// ------------------------------------------------------------------------------------------------------------- memory
cudaError_t cudafake_free(void *p, bool host, const char *fn) {
    auto &r = gpu::Runtime::get();
    if (p == nullptr)
        return cudaSuccess;
    // (frees wait for the device)
    r.run_everything();
    if (!r.release(gpu::CUDA, p, host, false, nullptr, fn))
        return cudaErrorInvalidValue;
    // what went wrong in earlier operations can be reported here
    return r.fails(fn) ? cudaErrorUnknown : cudaSuccess;
}
cudaError_t cudaFree(void *p) { return cudafake_free(p, false, "cudaFree"); }
cudaError_t cudaFreeHost(void *p) { return cudafake_free(p, true, "cudaFreeHost"); }
cudaError_t cudaHostFree(void *p) { return cudafake_free(p, true, "cudaHostFree"); }

int cudafake_direction(cudaMemcpyKind k) {
    switch (k) {
        case cudaMemcpyHostToDevice:
            return 0;
        case cudaMemcpyDeviceToHost:
            return 1;
        case cudaMemcpyHostToHost:
            return 2;
        case cudaMemcpyDeviceToDevice:
            return 3;
        default:
            return 4;
    }
}
cudaError_t cudaMemcpyAsync(void *to, const void *from, std::size_t n, cudaMemcpyKind k, cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaMemcpyAsync");
    if (st == nullptr || r.fails("cudaMemcpyAsync"))
        return cudaErrorUnknown;
    r.judge_direction(from, to, cudafake_direction(k));
    r.push(*st, {false, n, from, to, 0, 0, {}});
    return cudaSuccess;
}
cudaError_t cudaMemsetAsync(void *p, int v, std::size_t n, cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaMemsetAsync");
    if (st == nullptr || r.fails("cudaMemsetAsync"))
        return cudaErrorUnknown;
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    return cudaSuccess;
}
cudaError_t cudaMemcpy(void *to, const void *from, std::size_t n, cudaMemcpyKind k) {
    auto &r = gpu::Runtime::get();
    if (r.fails("cudaMemcpy"))
        return cudaErrorUnknown;
    r.run_blocking(gpu::CUDA);
    r.judge_direction(from, to, cudafake_direction(k));
    gpu::Stream *st = r.default_stream(gpu::CUDA);
    r.push(*st, {false, n, from, to, 0, 0, {}});
    r.run_all(*st);
    return cudaSuccess;
}
cudaError_t cudaMemset(void *p, int v, std::size_t n) {
    auto &r = gpu::Runtime::get();
    if (r.fails("cudaMemset"))
        return cudaErrorUnknown;
    r.run_blocking(gpu::CUDA);
    gpu::Stream *st = r.default_stream(gpu::CUDA);
    r.push(*st, {true, n, nullptr, p, v, 0, {}});
    r.run_all(*st);
    return cudaSuccess;
}

// -------------------------------------------------------------------------------------------------- streams and events
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned flags) {
    auto &r = gpu::Runtime::get();
    if (r.fails("cudaStreamCreate"))
        return cudaErrorUnknown;
    if (r.devices[gpu::CUDA] == 0)
        return cudaErrorNoDevice;
    *s = r.new_stream(gpu::CUDA, r.active[gpu::CUDA]);
    (*s)->blocking = (flags & cudaStreamNonBlocking) == 0;
    return cudaSuccess;
}
cudaError_t cudaStreamCreate(cudaStream_t *s) { return cudaStreamCreateWithFlags(s, 0); }
cudaError_t cudaStreamDestroy(cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaStreamDestroy");
    if (st == nullptr || s == nullptr)
        return cudaErrorInvalidResourceHandle;
    // (what is in it still runs)
    st->destroyed = true;
    return r.fails("cudaStreamDestroy") ? cudaErrorUnknown : cudaSuccess;
}
cudaError_t cudaStreamSynchronize(cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaStreamSynchronize");
    if (st == nullptr)
        return cudaErrorInvalidResourceHandle;
    r.run_all(*st);
    return r.fails("cudaStreamSynchronize") ? cudaErrorUnknown : cudaSuccess;
}
cudaError_t cudaStreamQuery(cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaStreamQuery");
    if (st == nullptr)
        return cudaErrorInvalidResourceHandle;
    r.step(*st);
    return st->queue.empty() ? cudaSuccess : cudaErrorNotReady;
}
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned) {
    auto &r = gpu::Runtime::get();
    if (r.fails("cudaEventCreate"))
        return cudaErrorUnknown;
    r.events.push_back(std::make_unique<gpu::Event>());
    *e = r.events.back().get();
    (*e)->api = gpu::CUDA;
    (*e)->device = r.active[gpu::CUDA];
    return cudaSuccess;
}
cudaError_t cudaEventCreate(cudaEvent_t *e) { return cudaEventCreateWithFlags(e, 0); }
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "cudaEventRecord");
    gpu::Stream *st = r.use(s, gpu::CUDA, "cudaEventRecord");
    // "event and stream must be on the same context"
    if (ev == nullptr || st == nullptr || ev->device != st->device)
        return cudaErrorInvalidResourceHandle;
    if (r.fails("cudaEventRecord"))
        return cudaErrorUnknown;
    ev->stream = st;
    ev->upto = r.next_op;
    return cudaSuccess;
}
cudaError_t cudaEventSynchronize(cudaEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "cudaEventSynchronize");
    if (ev == nullptr)
        return cudaErrorInvalidResourceHandle;
    if (ev->stream)
        r.run_until(*ev->stream, ev->upto);
    return r.fails("cudaEventSynchronize") ? cudaErrorUnknown : cudaSuccess;
}
cudaError_t cudaEventQuery(cudaEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "cudaEventQuery");
    if (ev == nullptr)
        return cudaErrorInvalidResourceHandle;
    if (ev->stream == nullptr)
        return cudaSuccess;
    r.step(*ev->stream);
    for (auto &o : ev->stream->queue)
        if (o.id < ev->upto)
            return cudaErrorNotReady;
    return cudaSuccess;
}
cudaError_t cudaEventDestroy(cudaEvent_t e) {
    auto &r = gpu::Runtime::get();
    gpu::Event *ev = r.use(e, "cudaEventDestroy");
    if (ev == nullptr)
        return cudaErrorInvalidResourceHandle;
    ev->destroyed = true;
    return cudaSuccess;
}
