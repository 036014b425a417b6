// The code that modern SYCL compilers see, with a model of sycl::atomic_ref
#include <atomic>
#include <cassert>
#include <type_traits>

#define SYCL_LANGUAGE_VERSION 202001
#define VECMEM_HAVE_SYCL_ATOMIC_REF
#define vecmem vecmem_sycl2
#include <sycl/sycl.hpp>
#include <vecmem/memory/atomic.hpp>
#include <vecmem/memory/device_atomic_ref.hpp>
#include <vecmem/memory/memory_order.hpp>

#include "P27_call.hpp"
#include "pbt.hpp"

namespace p27 {
void sycl_builtin(int device, int type, void *obj, Wire &w) {
    using M = vecmem::memory_order;
    static const M orders[] = {M::relaxed, M::acquire, M::acquire, M::release, M::acq_rel, M::seq_cst};
    with_number(type, obj, [&](auto &v) {
        using T = std::remove_reference_t<decltype(v)>;
        if (device == SYCL_BUILTIN_OLD) {
            vecmem::atomic<T> ref(&v);
            apply_old<decltype(ref), T>(ref, w);
        } else if (device == SYCL_BUILTIN_LOCAL) {
            using R = vecmem::device_atomic_ref<T, vecmem::device_address_space::local>;
            PBT_CHECK(R::address_space == ::sycl::access::address_space::local_space ||
                          R::address_space == ::sycl::access::address_space::generic_space,
                      "a reference to local memory uses another address space");
            PBT_CHECK(R::default_scope >= ::sycl::memory_scope::work_group, "the scope is smaller than a work group");
            R ref(v), copy(ref);
            apply<M, const R, T>(w.defaults ? ref : copy, w, orders);
        } else {
            using R = vecmem::device_atomic_ref<T>;
            PBT_CHECK(R::address_space == ::sycl::access::address_space::global_space ||
                          R::address_space == ::sycl::access::address_space::generic_space,
                      "a reference to global memory uses another address space");
            PBT_CHECK(R::default_scope >= ::sycl::memory_scope::device, "the scope is smaller than the device");
            R ref(v), copy(ref);
            apply<M, const R, T>(w.defaults ? ref : copy, w, orders);
        }
    });
}
}  // namespace p27
