// The atomic parts of SYCL: those of SYCL 1.2.1 and sycl::atomic_ref.
#pragma once
namespace sycl {
enum class memory_order { relaxed, acquire, __consume_unsupported, release, acq_rel, seq_cst };
enum class memory_scope { work_item, sub_group, work_group, device, system };
namespace access {
enum class address_space { global_space, local_space, constant_space, private_space, generic_space };
}
template <typename T, access::address_space S>
class multi_ptr {
public:
    explicit multi_ptr(T *p) : m_p(p) {}
    T *get() const { return m_p; }

private:
    T *m_p;
};
template <typename T>
using global_ptr = multi_ptr<T, access::address_space::global_space>;
template <typename T>
using local_ptr = multi_ptr<T, access::address_space::local_space>;

template <typename T, access::address_space S = access::address_space::global_space>
class atomic {
public:
    explicit atomic(multi_ptr<T, S> p) : m_p(p.get()) {}
    T *m_p;
};
using AS = access::address_space;
template <typename T, AS S = AS::global_space>
void atomic_store(atomic<T, S> o, T v) {
    __atomic_store_n(o.m_p, v, __ATOMIC_RELAXED);
}
template <typename T, AS S = AS::global_space>
T atomic_load(atomic<T, S> o) {
    return __atomic_load_n(o.m_p, __ATOMIC_RELAXED);
}
template <typename T, AS S = AS::global_space>
T atomic_exchange(atomic<T, S> o, T v) {
    return __atomic_exchange_n(o.m_p, v, __ATOMIC_RELAXED);
}
template <typename T, AS S = AS::global_space>
bool atomic_compare_exchange_strong(atomic<T, S> o, T &e, T v) {
    return __atomic_compare_exchange_n(o.m_p, &e, v, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED);
}
#define PBT_OP(NAME)                                              \
    template <typename T, AS S = AS::global_space>                \
    T atomic_fetch_##NAME(atomic<T, S> o, T v) {                  \
        return __atomic_fetch_##NAME(o.m_p, v, __ATOMIC_RELAXED); \
    }
PBT_OP(add)
PBT_OP(sub)
PBT_OP(and)
PBT_OP(or)
PBT_OP(xor)
#undef PBT_OP

template <typename T, memory_order O, memory_scope SC, access::address_space SP>
class atomic_ref {
public:
    using value_type = T;
    using difference_type = T;
    static constexpr memory_order default_read_modify_write_order = O;
    static constexpr memory_scope default_scope = SC;
    static constexpr access::address_space address_space = SP;
    explicit atomic_ref(T &r) : m_p(&r) {}
    atomic_ref(const atomic_ref &) = default;
    atomic_ref &operator=(const atomic_ref &) = delete;
    T operator=(T v) const {
        store(v);
        return v;
    }
    void store(T v, memory_order = O, memory_scope = SC) const { __atomic_store_n(m_p, v, __ATOMIC_SEQ_CST); }
    T load(memory_order = O, memory_scope = SC) const { return __atomic_load_n(m_p, __ATOMIC_SEQ_CST); }
    T exchange(T v, memory_order = O, memory_scope = SC) const { return __atomic_exchange_n(m_p, v, __ATOMIC_SEQ_CST); }
    bool compare_exchange_strong(T &e, T v, memory_order, memory_order, memory_scope = SC) const {
        return __atomic_compare_exchange_n(m_p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    bool compare_exchange_strong(T &e, T v, memory_order = O, memory_scope = SC) const {
        return __atomic_compare_exchange_n(m_p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST);
    }
    T fetch_add(T v, memory_order = O, memory_scope = SC) const { return __atomic_fetch_add(m_p, v, __ATOMIC_SEQ_CST); }
    T fetch_sub(T v, memory_order = O, memory_scope = SC) const { return __atomic_fetch_sub(m_p, v, __ATOMIC_SEQ_CST); }
    T fetch_and(T v, memory_order = O, memory_scope = SC) const { return __atomic_fetch_and(m_p, v, __ATOMIC_SEQ_CST); }
    T fetch_or(T v, memory_order = O, memory_scope = SC) const { return __atomic_fetch_or(m_p, v, __ATOMIC_SEQ_CST); }
    T fetch_xor(T v, memory_order = O, memory_scope = SC) const { return __atomic_fetch_xor(m_p, v, __ATOMIC_SEQ_CST); }

private:
    T *m_p;
};
}  // namespace sycl
