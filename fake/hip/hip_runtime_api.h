// HIP runtime interface on top of the model of accelerator runtimes (made by gen.py).
#pragma once
#include <cstddef>
namespace gpu {
struct Stream;
struct Event;
enum Kind : int;
}  // namespace gpu

enum hipError_t {
    hipSuccess = 0,
    hipErrorInvalidValue = 1,
    hipErrorOutOfMemory = 2,
    hipErrorNoDevice = 100,
    hipErrorInvalidDevice = 101,
    hipErrorInvalidHandle = 400,
    hipErrorNotReady = 600,
    hipErrorUnknown = 999
};
enum hipMemcpyKind {
    hipMemcpyHostToHost = 0,
    hipMemcpyHostToDevice = 1,
    hipMemcpyDeviceToHost = 2,
    hipMemcpyDeviceToDevice = 3,
    hipMemcpyDefault = 4
};
struct hipDeviceProp_t {
    char name[256];
    int pciBusID, pciDeviceID, pciDomainID;
};
static constexpr hipError_t hipErrorMemoryAllocation = hipErrorOutOfMemory;
using hipStream_t = gpu::Stream *;
using hipEvent_t = gpu::Event *;
enum : unsigned {
    hipStreamDefault = 0,
    hipStreamNonBlocking = 1,
    hipEventDefault = 0,
    hipEventBlockingSync = 1,
    hipEventDisableTiming = 2,
    hipHostAllocDefault = 0,
    hipHostMallocDefault = 0,
    hipMemAttachGlobal = 1
};

hipError_t hipfake_alloc(void **p, std::size_t n, gpu::Kind k, const char *fn);
const char *hipGetErrorString(hipError_t e);
const char *hipGetErrorName(hipError_t);
hipError_t hipGetLastError();
hipError_t hipPeekAtLastError();
hipError_t hipGetDeviceCount(int *n);
hipError_t hipGetDevice(int *d);
hipError_t hipSetDevice(int d);
hipError_t hipGetDeviceProperties(hipDeviceProp_t *p, int d);
hipError_t hipDeviceSynchronize();
hipError_t hipfake_free(void *p, bool host, const char *fn);
hipError_t hipFree(void *p);
hipError_t hipFreeHost(void *p);
hipError_t hipHostFree(void *p);
int hipfake_direction(hipMemcpyKind k);
hipError_t hipMemcpyAsync(void *to, const void *from, std::size_t n, hipMemcpyKind k, hipStream_t s = nullptr);
hipError_t hipMemsetAsync(void *p, int v, std::size_t n, hipStream_t s = nullptr);
hipError_t hipMemcpy(void *to, const void *from, std::size_t n, hipMemcpyKind k);
hipError_t hipMemset(void *p, int v, std::size_t n);
hipError_t hipStreamCreateWithFlags(hipStream_t *s, unsigned flags);
hipError_t hipStreamCreate(hipStream_t *s);
hipError_t hipStreamDestroy(hipStream_t s);
hipError_t hipStreamSynchronize(hipStream_t s);
hipError_t hipStreamQuery(hipStream_t s);
hipError_t hipEventCreateWithFlags(hipEvent_t *e, unsigned);
hipError_t hipEventCreate(hipEvent_t *e);
hipError_t hipEventRecord(hipEvent_t e, hipStream_t s = nullptr);
hipError_t hipEventSynchronize(hipEvent_t e);
hipError_t hipEventQuery(hipEvent_t e);
hipError_t hipEventDestroy(hipEvent_t e);

template <typename T>
inline hipError_t hipMalloc(T **p, std::size_t n) {
    return hipfake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(0), "hipMalloc");
}
template <typename T>
inline hipError_t hipMallocHost(T **p, std::size_t n, unsigned = 0) {
    return hipfake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "hipMallocHost");
}
template <typename T>
inline hipError_t hipHostMalloc(T **p, std::size_t n, unsigned = 0) {
    return hipfake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "hipHostMalloc");
}
template <typename T>
inline hipError_t hipHostAlloc(T **p, std::size_t n, unsigned = 0) {
    return hipfake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(1), "hipHostAlloc");
}
template <typename T>
inline hipError_t hipMallocManaged(T **p, std::size_t n, unsigned = 1) {
    return hipfake_alloc(reinterpret_cast<void **>(p), n, gpu::Kind(2), "hipMallocManaged");
}
