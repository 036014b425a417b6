// The operations of an atomic reference as data, for all the implementations (each in a translation unit of its own,
// as they are selected by macros).
#pragma once
#include <cstdint>

namespace p27 {

enum Op { LOAD, STORE, ASSIGN, EXCHANGE, CAS1, CAS2, ADD, SUB, AND, OR, XOR, N_OPS };

/// Implementations for devices
enum Device { CUDA, CUDA_OLD, HIP, HIP_OLD, SYCL_CUSTOM, SYCL_CUSTOM_LOCAL, SYCL_OLD, SYCL_BUILTIN, SYCL_BUILTIN_LOCAL, SYCL_BUILTIN_OLD, N_DEVICES };
/// Does an implementation have all operations, and memory orders? (vecmem::atomic does not)
inline bool is_ref(int d) { return d != CUDA_OLD && d != HIP_OLD && d != SYCL_OLD && d != SYCL_BUILTIN_OLD; }

struct Wire {
    int op = LOAD;
    uint64_t a = 0, b = 0;
    bool defaults = false;
    int o1 = 5, o2 = 5;  // index of the memory order
    uint64_t r = 0;
    bool ok = false;
};
/// Perform an operation on an object of type number `type` (int, unsigned int, unsigned long long)
void cuda(int device, int type, void *obj, Wire &w);
void hip(int device, int type, void *obj, Wire &w);
void sycl_custom(int device, int type, void *obj, Wire &w);
void sycl_builtin(int device, int type, void *obj, Wire &w);

namespace {
template <typename O, typename R, typename T>
inline void apply(R &ref, Wire &w, const O *orders) {
    T a = static_cast<T>(w.a), b = static_cast<T>(w.b), e = a;
    O o1 = orders[w.o1], o2 = orders[w.o2];
    w.ok = false;
    T r = 0;
    switch (w.op) {
        case LOAD:
            r = w.defaults ? ref.load() : ref.load(o1);
            break;
        case STORE:
            w.defaults ? ref.store(a) : ref.store(a, o1);
            break;
        case ASSIGN:
            r = (ref = a);
            break;
        case EXCHANGE:
            r = w.defaults ? ref.exchange(a) : ref.exchange(a, o1);
            break;
        case CAS1:
            w.ok = w.defaults ? ref.compare_exchange_strong(e, b) : ref.compare_exchange_strong(e, b, o1);
            r = e;
            break;
        case CAS2:
            w.ok = ref.compare_exchange_strong(e, b, o1, o2);
            r = e;
            break;
        case ADD:
            r = w.defaults ? ref.fetch_add(a) : ref.fetch_add(a, o1);
            break;
        case SUB:
            r = w.defaults ? ref.fetch_sub(a) : ref.fetch_sub(a, o1);
            break;
        case AND:
            r = w.defaults ? ref.fetch_and(a) : ref.fetch_and(a, o1);
            break;
        case OR:
            r = w.defaults ? ref.fetch_or(a) : ref.fetch_or(a, o1);
            break;
        default:
            r = w.defaults ? ref.fetch_xor(a) : ref.fetch_xor(a, o1);
    }
    w.r = static_cast<uint64_t>(r);
}
template <typename R, typename T>
inline void apply_old(R &ref, Wire &w) {
    T a = static_cast<T>(w.a), b = static_cast<T>(w.b), e = a;
    w.ok = false;
    T r = 0;
    switch (w.op) {
        case LOAD:
            r = ref.load();
            break;
        case STORE:
            ref.store(a);
            break;
        case EXCHANGE:
            r = ref.exchange(a);
            break;
        case CAS1:
            w.ok = ref.compare_exchange_strong(e, b);
            r = e;
            break;
        case ADD:
            r = ref.fetch_add(a);
            break;
        case SUB:
            r = ref.fetch_sub(a);
            break;
        case AND:
            r = ref.fetch_and(a);
            break;
        case OR:
            r = ref.fetch_or(a);
            break;
        default:
            r = ref.fetch_xor(a);
    }
    w.r = static_cast<uint64_t>(r);
}
template <typename F>
inline void with_number(int type, void *obj, F &&f) {
    switch (type) {
        case 0:
            return f(*static_cast<int *>(obj));
        case 1:
            return f(*static_cast<unsigned int *>(obj));
        default:
            return f(*static_cast<unsigned long long *>(obj));
    }
}
}  // namespace
}  // namespace p27
