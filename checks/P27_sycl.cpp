// The code that older SYCL compilers see, with a model of the atomics of SYCL 1.2.1
#include <atomic>
#include <cassert>
#include <type_traits>

#define SYCL_LANGUAGE_VERSION 202001
#define vecmem vecmem_sycl
#include <vecmem/memory/atomic.hpp>
#include <vecmem/memory/device_atomic_ref.hpp>

#include "P27_call.hpp"

namespace p27 {
void sycl_custom(int device, int type, void *obj, Wire &w) {
    using M = vecmem::memory_order;
    static const M orders[] = {M::relaxed, M::consume, M::acquire, M::release, M::acq_rel, M::seq_cst};
    with_number(type, obj, [&](auto &v) {
        using T = std::remove_reference_t<decltype(v)>;
        if (device == SYCL_OLD) {
            vecmem::atomic<T> ref(&v);
            apply_old<decltype(ref), T>(ref, w);
        } else if (device == SYCL_CUSTOM_LOCAL) {
            vecmem::device_atomic_ref<T, vecmem::device_address_space::local> ref(v), copy(ref);
            apply<M, const decltype(ref), T>(w.defaults ? ref : copy, w, orders);
        } else {
            vecmem::device_atomic_ref<T> ref(v), copy(ref);
            apply<M, const decltype(ref), T>(w.defaults ? ref : copy, w, orders);
        }
    });
}
}  // namespace p27
