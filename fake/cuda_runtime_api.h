// CUDA runtime interface on top of the model of accelerator runtimes (made by gen.py).
#pragma once
#include <cstddef>
namespace gpu {
struct Stream;
struct Event;
enum Kind : int;
}  // namespace gpu

enum cudaError_t {
    cudaSuccess = 0,
    cudaErrorInvalidValue = 1,
    cudaErrorMemoryAllocation = 2,
    cudaErrorNoDevice = 100,
    cudaErrorInvalidDevice = 101,
    cudaErrorInvalidResourceHandle = 400,
    cudaErrorNotReady = 600,
    cudaErrorUnknown = 999
};
enum cudaMemcpyKind {
    cudaMemcpyHostToHost = 0,
    cudaMemcpyHostToDevice = 1,
    cudaMemcpyDeviceToHost = 2,
    cudaMemcpyDeviceToDevice = 3,
    cudaMemcpyDefault = 4
};
struct cudaDeviceProp {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
};
using cudaDeviceProp_t = cudaDeviceProp;
using cudaStream_t = gpu::Stream *;
using cudaEvent_t = gpu::Event *;
enum : unsigned {
    cudaStreamDefault = 0,
    cudaStreamNonBlocking = 1,
    cudaEventDefault = 0,
    cudaEventBlockingSync = 1,
    cudaEventDisableTiming = 2,
    cudaHostAllocDefault = 0,
    cudaHostMallocDefault = 0,
    cudaMemAttachGlobal = 1
};

cudaError_t cudafake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn);
const char *cudaGetErrorString(cudaError_t e);
const char *cudaGetErrorName(cudaError_t);
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
cudaError_t cudaGetDeviceCount(int *n);
cudaError_t cudaGetDevice(int *d);
cudaError_t cudaSetDevice(int d);
cudaError_t cudaGetDeviceProperties(cudaDeviceProp_t *p, int d);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudafake_free(void *p, bool host, const char *fn);
cudaError_t cudaFree(void *p);
cudaError_t cudaFreeHost(void *p);
cudaError_t cudaHostFree(void *p);
int cudafake_direction(cudaMemcpyKind k);
cudaError_t cudaMemcpyAsync(void *to, const void *from, std::size_t n, cudaMemcpyKind k, cudaStream_t s = nullptr);
cudaError_t cudaMemsetAsync(void *p, int v, std::size_t n, cudaStream_t s = nullptr);
cudaError_t cudaMemcpy(void *to, const void *from, std::size_t n, cudaMemcpyKind k);
cudaError_t cudaMemset(void *p, int v, std::size_t n);
cudaError_t cudaStreamCreateWithFlags(cudaStream_t *s, unsigned flags);
cudaError_t cudaStreamCreate(cudaStream_t *s);
cudaError_t cudaStreamDestroy(cudaStream_t s);
cudaError_t cudaStreamSynchronize(cudaStream_t s);
cudaError_t cudaStreamQuery(cudaStream_t s);
cudaError_t cudaEventCreateWithFlags(cudaEvent_t *e, unsigned);
cudaError_t cudaEventCreate(cudaEvent_t *e);
cudaError_t cudaEventRecord(cudaEvent_t e, cudaStream_t s = nullptr);
cudaError_t cudaEventSynchronize(cudaEvent_t e);
cudaError_t cudaEventQuery(cudaEvent_t e);
cudaError_t cudaEventDestroy(cudaEvent_t e);

template <typename T>
inline cudaError_t cudaMalloc(T **p, std::size_t n) {
    return cudafake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(0), "cudaMalloc");
}
template <typename T>
inline cudaError_t cudaMallocHost(T **p, std::size_t n, unsigned = 0) {
    return cudafake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "cudaMallocHost");
}
template <typename T>
inline cudaError_t cudaHostMalloc(T **p, std::size_t n, unsigned = 0) {
    return cudafake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "cudaHostMalloc");
}
template <typename T>
inline cudaError_t cudaHostAlloc(T **p, std::size_t n, unsigned = 0) {
    return cudafake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "cudaHostAlloc");
}
template <typename T>
inline cudaError_t cudaMallocManaged(T **p, std::size_t n, unsigned = 1) {
    return cudafake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(2), "cudaMallocManaged");
}
