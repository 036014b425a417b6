// The code that CUDA device compilation sees, with models of the device functions it calls
#include <atomic>
#include <cassert>
#include <type_traits>

#include "intrinsics.hpp"
#define __CUDA_ARCH__ 800
#define vecmem vecmem_cuda
#include <vecmem/memory/atomic.hpp>
#include <vecmem/memory/details/cuda_device_atomic_ref.hpp>

#include "P27_call.hpp"

namespace p27 {
void cuda(int device, int type, void *obj, Wire &w) {
    using M = vecmem::memory_order;
    static const M orders[] = {M::relaxed, M::consume, M::acquire, M::release, M::acq_rel, M::seq_cst};
    with_number(type, obj, [&](auto &v) {
        using T = std::remove_reference_t<decltype(v)>;
        if (device == CUDA_OLD) {
            vecmem::atomic<T> ref(&v);
            apply_old<decltype(ref), T>(ref, w);
        } else {
            vecmem::cuda::device_atomic_ref<T> ref(v), copy(ref);
            apply<M, const decltype(ref), T>(w.defaults ? ref : copy, w, orders);
        }
    });
}
}  // namespace p27
