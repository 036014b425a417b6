// The atomic functions that CUDA and HIP offer in device code. Documented contract: each is a single atomic operation
// that returns the old value.
#pragma once
#define PBT_ATOMICS(T)                                                                                     \
    inline T atomicAdd(T *p, T v) { return __atomic_fetch_add(p, v, __ATOMIC_RELAXED); }                   \
    inline T atomicSub(T *p, T v) { return __atomic_fetch_sub(p, v, __ATOMIC_RELAXED); }                   \
    inline T atomicAnd(T *p, T v) { return __atomic_fetch_and(p, v, __ATOMIC_RELAXED); }                   \
    inline T atomicOr(T *p, T v) { return __atomic_fetch_or(p, v, __ATOMIC_RELAXED); }                     \
    inline T atomicXor(T *p, T v) { return __atomic_fetch_xor(p, v, __ATOMIC_RELAXED); }                   \
    inline T atomicExch(T *p, T v) { return __atomic_exchange_n(p, v, __ATOMIC_RELAXED); }                 \
    inline T atomicMin(T *p, T v) {                                                                        \
        T o = __atomic_load_n(p, __ATOMIC_RELAXED);                                                        \
        while (!__atomic_compare_exchange_n(p, &o, v < o ? v : o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) \
            ;                                                                                              \
        return o;                                                                                          \
    }                                                                                                      \
    inline T atomicMax(T *p, T v) {                                                                        \
        T o = __atomic_load_n(p, __ATOMIC_RELAXED);                                                        \
        while (!__atomic_compare_exchange_n(p, &o, v > o ? v : o, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED)) \
            ;                                                                                              \
        return o;                                                                                          \
    }                                                                                                      \
    inline T atomicCAS(T *p, T e, T v) {                                                                   \
        __atomic_compare_exchange_n(p, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);                  \
        return e;                                                                                          \
    }
namespace {
PBT_ATOMICS(int)
PBT_ATOMICS(unsigned int)
PBT_ATOMICS(unsigned long long)
inline void __threadfence() { __atomic_thread_fence(__ATOMIC_SEQ_CST); }
}  // namespace
#undef PBT_ATOMICS
