// Generated operation sequences against plain arithmetic; generated schedules judged by a search for a sequential order;
// message passing judged by happens-before clocks.
// check: lib=none mode=sched inc=fake/atomics
// assume: the models of the atomic functions of CUDA, HIP and SYCL are right; the device implementations promise no memory order, and their plain loads and stores are only judged in one thread
// assume: vecmem::atomic and the dummy implementation are documented not to be atomic on the host, and are only judged in one thread, without signed overflow
#include <cstdint>
#include <limits>
#include <set>

#include <vecmem/memory/atomic.hpp>
#include <vecmem/memory/details/dummy_device_atomic_ref.hpp>
#include <vecmem/memory/details/posix_device_atomic_ref.hpp>
#include <vecmem/memory/device_atomic_ref.hpp>

#include "P27_call.hpp"
#include "sched.hpp"

using namespace pbt;
using vecmem::memory_order;

namespace harness {
const char *const id = "P27";
const char *const rule =
    "sequences of 1..12 operations on one object of 11 integer types with 3 implementations for the host and 10 for devices, or 2..3 threads with 1..3 "
    "operations each, or messages passed between threads; non-trivial: at least two operations that change the value, "
    "or interleaved threads";
const uint64_t quick_cases = 4000000;
const uint64_t thorough_cases = 48000000;

using namespace p27;
const char *op_name(int o) {
    static const char *n[] = {"load", "store", "operator=", "exchange", "compare_exchange_strong", "compare_exchange_strong(2 orders)",
                              "fetch_add", "fetch_sub", "fetch_and", "fetch_or", "fetch_xor"};
    return n[o];
}
const memory_order ORDERS[] = {memory_order::relaxed, memory_order::consume, memory_order::acquire,
                               memory_order::release, memory_order::acq_rel, memory_order::seq_cst};
const char *order_name(memory_order o) {
    static const char *n[] = {"relaxed", "consume", "acquire", "release", "acq_rel", "seq_cst"};
    return n[static_cast<int>(o)];
}

template <typename T>
struct Call {
    int op = LOAD;
    T a = 0, b = 0;  // argument; desired value
    bool defaults = false;
    memory_order o1 = memory_order::seq_cst, o2 = memory_order::seq_cst;
    // results
    T r = 0;         // returned (or found by a failed comparison)
    bool ok = false;
    bool same(const Call &c) const { return r == c.r && ok == c.ok; }
};

/// What the operation is to do
template <typename T>
void plain(Call<T> &c, T &v) {
    using U = std::make_unsigned_t<T>;
    U u = static_cast<U>(v), a = static_cast<U>(c.a);
    c.ok = false;
    c.r = v;
    switch (c.op) {
        case LOAD:
            return;
        case STORE:
            c.r = 0;
            v = c.a;
            return;
        case ASSIGN:
            c.r = c.a;
            v = c.a;
            return;
        case EXCHANGE:
            v = c.a;
            return;
        case CAS1:
        case CAS2:
            c.ok = v == c.a;
            // (the expected value is left alone if it was the right one)
            if (c.ok)
                v = c.b;
            return;
        case ADD:
            v = static_cast<T>(static_cast<U>(u + a));
            return;
        case SUB:
            v = static_cast<T>(static_cast<U>(u - a));
            return;
        case AND:
            v = static_cast<T>(static_cast<U>(u & a));
            return;
        case OR:
            v = static_cast<T>(static_cast<U>(u | a));
            return;
        default:
            v = static_cast<T>(static_cast<U>(u ^ a));
    }
}

template <typename R, typename T>
void with_order(const R &ref, Call<T> &c) {
    c.ok = false;
    c.r = 0;
    T e = c.a;
    switch (c.op) {
        case LOAD:
            c.r = c.defaults ? ref.load() : ref.load(c.o1);
            break;
        case STORE:
            c.defaults ? ref.store(c.a) : ref.store(c.a, c.o1);
            break;
        case ASSIGN:
            c.r = (ref = c.a);
            break;
        case EXCHANGE:
            c.r = c.defaults ? ref.exchange(c.a) : ref.exchange(c.a, c.o1);
            break;
        case CAS1:
            c.ok = c.defaults ? ref.compare_exchange_strong(e, c.b) : ref.compare_exchange_strong(e, c.b, c.o1);
            c.r = e;
            break;
        case CAS2:
            c.ok = ref.compare_exchange_strong(e, c.b, c.o1, c.o2);
            c.r = e;
            break;
        case ADD:
            c.r = c.defaults ? ref.fetch_add(c.a) : ref.fetch_add(c.a, c.o1);
            break;
        case SUB:
            c.r = c.defaults ? ref.fetch_sub(c.a) : ref.fetch_sub(c.a, c.o1);
            break;
        case AND:
            c.r = c.defaults ? ref.fetch_and(c.a) : ref.fetch_and(c.a, c.o1);
            break;
        case OR:
            c.r = c.defaults ? ref.fetch_or(c.a) : ref.fetch_or(c.a, c.o1);
            break;
        default:
            c.r = c.defaults ? ref.fetch_xor(c.a) : ref.fetch_xor(c.a, c.o1);
    }
}
template <typename T>
void without_order(vecmem::atomic<T> &ref, Call<T> &c) {
    c.ok = false;
    c.r = 0;
    T e = c.a;
    switch (c.op) {
        case LOAD:
            c.r = ref.load();
            break;
        case STORE:
            ref.store(c.a);
            break;
        case EXCHANGE:
            c.r = ref.exchange(c.a);
            break;
        case CAS1:
            c.ok = ref.compare_exchange_strong(e, c.b);
            c.r = e;
            break;
        case ADD:
            c.r = ref.fetch_add(c.a);
            break;
        case SUB:
            c.r = ref.fetch_sub(c.a);
            break;
        case AND:
            c.r = ref.fetch_and(c.a);
            break;
        case OR:
            c.r = ref.fetch_or(c.a);
            break;
        default:
            c.r = ref.fetch_xor(c.a);
    }
}

template <typename T>
T value(Src &src, T now) {
    using L = std::numeric_limits<T>;
    switch (src.draw(7)) {
        case 0:
            return static_cast<T>(src.draw(4));
        case 1:
            return static_cast<T>(L::max() - static_cast<T>(src.draw(3)));
        case 2:
            return static_cast<T>(L::min() + static_cast<T>(src.draw(3)));
        case 3:
            return now;
        case 4:
            return static_cast<T>(-static_cast<int64_t>(src.draw(4)));
        case 5:
            return static_cast<T>(uint64_t(1) << src.draw(8 * sizeof(T)));
        default:
            return static_cast<T>(src.u64());
    }
}
template <typename T>
Call<T> random_call(Src &src, T now) {
    Call<T> c;
    c.op = static_cast<int>(src.draw(N_OPS));
    c.a = value<T>(src, now);
    if ((c.op == CAS1 || c.op == CAS2)) {
        if (src.coin())
            c.a = now;
        c.b = value<T>(src, now);
    }
    c.defaults = src.coin();
    if (c.op == LOAD)
        c.o1 = src.pick({memory_order::relaxed, memory_order::consume, memory_order::acquire, memory_order::seq_cst});
    else if (c.op == STORE)
        c.o1 = src.pick({memory_order::relaxed, memory_order::release, memory_order::seq_cst});
    else
        c.o1 = ORDERS[src.draw(6)];
    c.o2 = src.pick({memory_order::relaxed, memory_order::consume, memory_order::acquire, memory_order::seq_cst});
    return c;
}
template <typename T>
std::string show(const Call<T> &c) {
    std::string s = std::string(op_name(c.op)) + "(";
    if (c.op != LOAD)
        s += std::to_string(c.a);
    if (c.op == CAS1 || c.op == CAS2)
        s += "," + std::to_string(c.b);
    if (!c.defaults && c.op != ASSIGN)
        s += std::string(c.op == LOAD ? "" : ",") + order_name(c.o1);
    if (c.op == CAS2)
        s += std::string(",") + order_name(c.o2);
    return s + ")";
}

/// Is the order that was used as strong as the one that was asked for?
bool strong_enough(memory_order want, int got) {
    if (got < 0)
        return false;
    bool acq = got == __ATOMIC_ACQUIRE || got == __ATOMIC_ACQ_REL || got == __ATOMIC_SEQ_CST;
    bool rel = got == __ATOMIC_RELEASE || got == __ATOMIC_ACQ_REL || got == __ATOMIC_SEQ_CST;
    switch (want) {
        case memory_order::relaxed:
            return true;
        case memory_order::consume:
            return acq || got == __ATOMIC_CONSUME;
        case memory_order::acquire:
            return acq;
        case memory_order::release:
            return rel;
        case memory_order::acq_rel:
            return acq && rel;
        default:
            return got == __ATOMIC_SEQ_CST;
    }
}

/// One thread, against plain arithmetic
template <typename T, int IMPL>
void sequence(Src &src) {
    // neighbours that must not change
    struct Three {
        T before, v, after;
    } m;
    T model = value<T>(src, 0);
    m.before = static_cast<T>(0x5a);
    m.after = static_cast<T>(0xa5);
    m.v = model;
    int n = 1 + static_cast<int>(src.draw(12)), changes = 0;
    PBT_TRACE(src, "%zu byte %s integer, implementation %d, starts at %s", sizeof(T), std::is_signed<T>::value ? "signed" : "unsigned", IMPL,
              std::to_string(model).c_str());
    for (int i = 0; i < n; ++i) {
        Call<T> c = random_call<T>(src, model);
        if (IMPL == 2 && (c.op == ASSIGN || c.op == CAS2))
            c.op = STORE;
        if (IMPL >= 1 && sizeof(T) >= sizeof(int) && std::is_signed<T>::value && (c.op == ADD || c.op == SUB)) {
            __int128 x = c.op == ADD ? static_cast<__int128>(model) + c.a : static_cast<__int128>(model) - c.a;
            if (x < std::numeric_limits<T>::min() || x > std::numeric_limits<T>::max())
                c.op = XOR;
        }
        if (IMPL >= 1 && std::is_signed<T>::value && c.op == SUB && c.a == std::numeric_limits<T>::min())
            c.op = XOR;
        PBT_TRACE(src, "%s", show(c).c_str());
        Call<T> want = c;
        T was = model;
        plain(want, model);
        if (c.op == CAS1 || c.op == CAS2)
            want.r = want.ok ? c.a : was;
        if (c.op == STORE)
            want.r = 0;
        changes += model != was;
        if (IMPL == 0) {
            vecmem::device_atomic_ref<T> ref(m.v), copy(ref);
            (void)sched::take_atomics();
            with_order(i % 2 ? ref : copy, c);
            sched::Atomics seen = sched::take_atomics();
            if (seen.fence < 0) {
                memory_order o = c.defaults || c.op == ASSIGN ? memory_order::seq_cst : c.o1;
                if (c.op == CAS2)
                    o = c.o1;
                if ((c.op == CAS1 || c.op == CAS2) && !c.ok) {
                    // a failed comparison is a load
                    memory_order f = c.op == CAS2             ? c.o2
                                     : o == memory_order::acq_rel ? memory_order::acquire
                                     : o == memory_order::release ? memory_order::relaxed
                                                                  : o;
                    PBT_CHECK(strong_enough(f, seen.load >= 0 ? seen.load : seen.rmw),
                              "a failed %s is done with a weaker memory order than asked for", show(c).c_str());
                } else {
                    int got = c.op == LOAD                           ? seen.load
                              : c.op == STORE || c.op == ASSIGN ? (seen.store >= 0 ? seen.store : seen.rmw)
                                                                     : seen.rmw;
                    PBT_CHECK(got >= 0, "%s is not done as an atomic operation", show(c).c_str());
                    PBT_CHECK(strong_enough(o, got), "%s is done with a weaker memory order than asked for", show(c).c_str());
                }
            }
        } else if (IMPL == 1) {
            vecmem::dummy_device_atomic_ref<T> ref(m.v), copy(ref);
            with_order(i % 2 ? ref : copy, c);
        } else {
            vecmem::atomic<T> ref(&m.v);
            without_order(ref, c);
        }
        PBT_CHECK(m.v == model, "%s leaves %s instead of %s (it was %s)", show(c).c_str(), std::to_string(m.v).c_str(),
                  std::to_string(model).c_str(), std::to_string(was).c_str());
        PBT_CHECK(c.ok == want.ok, "%s on %s reports %s", show(c).c_str(), std::to_string(was).c_str(), c.ok ? "success" : "failure");
        PBT_CHECK(c.r == want.r, "%s on %s returns %s instead of %s", show(c).c_str(), std::to_string(was).c_str(),
                  std::to_string(c.r).c_str(), std::to_string(want.r).c_str());
        PBT_CHECK(m.before == static_cast<T>(0x5a) && m.after == static_cast<T>(0xa5), "%s changed a neighbouring object", show(c).c_str());
    }
    if (changes >= 2)
        src.nontrivial();
}

/// An operation by one of the implementations for devices
template <typename T>
void on_device(int device, T &v, Call<T> &c) {
    constexpr int type = std::is_signed<T>::value ? 0 : sizeof(T) == 4 ? 1 : 2;
    Wire w;
    w.op = c.op;
    w.a = static_cast<uint64_t>(c.a);
    w.b = static_cast<uint64_t>(c.b);
    w.defaults = c.defaults;
    w.o1 = static_cast<int>(c.o1);
    w.o2 = static_cast<int>(c.o2);
    if (device <= CUDA_OLD)
        cuda(device, type, &v, w);
    else if (device <= HIP_OLD)
        hip(device, type, &v, w);
    else if (device <= SYCL_OLD)
        sycl_custom(device, type, &v, w);
    else
        sycl_builtin(device, type, &v, w);
    c.r = static_cast<T>(w.r);
    c.ok = w.ok;
}
const char *device_name(int d) {
    static const char *n[] = {"CUDA", "CUDA vecmem::atomic", "HIP", "HIP vecmem::atomic", "SYCL custom", "SYCL custom local",
                              "SYCL vecmem::atomic", "SYCL built-in", "SYCL built-in local", "SYCL built-in vecmem::atomic"};
    return n[d];
}
template <typename T>
void device_sequence(Src &src) {
    struct Three {
        T before, v, after;
    } m;
    T model = value<T>(src, 0);
    m.before = static_cast<T>(0x5a);
    m.after = static_cast<T>(0xa5);
    m.v = model;
    int device = static_cast<int>(src.draw(N_DEVICES));
    int n = 1 + static_cast<int>(src.draw(8)), changes = 0;
    PBT_TRACE(src, "%zu byte integer, %s, starts at %s", sizeof(T), device_name(device), std::to_string(model).c_str());
    for (int i = 0; i < n; ++i) {
        Call<T> c = random_call<T>(src, model);
        if (!is_ref(device) && (c.op == ASSIGN || c.op == CAS2))
            c.op = STORE;
        PBT_TRACE(src, "%s", show(c).c_str());
        Call<T> want = c;
        T was = model;
        plain(want, model);
        if (c.op == CAS1 || c.op == CAS2)
            want.r = want.ok ? c.a : was;
        if (c.op == STORE)
            want.r = 0;
        changes += model != was;
        on_device(device, m.v, c);
        PBT_CHECK(m.v == model, "%s: %s leaves %s instead of %s (it was %s)", device_name(device), show(c).c_str(),
                  std::to_string(m.v).c_str(), std::to_string(model).c_str(), std::to_string(was).c_str());
        PBT_CHECK(c.ok == want.ok, "%s: %s on %s reports %s", device_name(device), show(c).c_str(),
                  std::to_string(was).c_str(), c.ok ? "success" : "failure");
        PBT_CHECK(c.r == want.r, "%s: %s on %s returns %s instead of %s", device_name(device), show(c).c_str(),
                  std::to_string(was).c_str(), std::to_string(c.r).c_str(), std::to_string(want.r).c_str());
        PBT_CHECK(m.before == static_cast<T>(0x5a) && m.after == static_cast<T>(0xa5),
                  "%s: %s changed a neighbouring object", device_name(device), show(c).c_str());
    }
    if (changes >= 2)
        src.nontrivial();
}

/// Several threads: is there a sequential order of the operations with the same outcome?
template <typename T>
bool explain(const std::vector<std::vector<Call<T>>> &ops, std::vector<std::size_t> &at, T v, T final,
             std::set<std::pair<std::vector<std::size_t>, T>> &dead) {
    bool all = true;
    for (std::size_t t = 0; t < ops.size(); ++t)
        all = all && at[t] == ops[t].size();
    if (all)
        return v == final;
    if (dead.count({at, v}))
        return false;
    for (std::size_t t = 0; t < ops.size(); ++t) {
        if (at[t] == ops[t].size())
            continue;
        const Call<T> &c = ops[t][at[t]];
        Call<T> x = c;
        T w = v;
        plain(x, w);
        if (c.op == CAS1 || c.op == CAS2)
            x.r = x.ok ? c.a : v;
        if (!x.same(c))
            continue;
        ++at[t];
        bool ok = explain(ops, at, w, final, dead);
        --at[t];
        if (ok)
            return true;
    }
    dead.insert({at, v});
    return false;
}
/// @param device the implementation (negative: that of the host)
template <typename T>
void concurrent(Src &src, int device = -1) {
    T m = value<T>(src, 0);
    const T start = m;
    int n = 2 + static_cast<int>(src.draw(2));
    std::vector<std::vector<Call<T>>> ops(n);
    T guess = start;
    for (auto &o : ops) {
        o.resize(1 + src.draw(3));
        for (auto &c : o) {
            c = random_call<T>(src, guess);
            if (device >= 0) {
                // (plain loads and stores are atomic on a device)
                bool simple = c.op == LOAD || c.op == STORE || c.op == ASSIGN;
                if ((device < SYCL_CUSTOM && simple) || (!is_ref(device) && (c.op == CAS2 || c.op == ASSIGN)))
                    c.op = EXCHANGE;
            }
            if (src.coin())
                plain(c, guess);
        }
    }
    std::vector<std::function<void()>> threads;
    sched::unwatch_all();
    sched::watch(&m, sizeof m, "the referenced object");
    for (int t = 0; t < n; ++t)
        threads.push_back([&, t] {
            for (auto &c : ops[t]) {
                Call<T> x;
                {
                    sched::Quiet q;
                    x = c;
                }
                if (device >= 0) {
                    on_device(device, m, x);
                } else {
                    vecmem::device_atomic_ref<T> ref(m);
                    with_order(ref, x);
                }
                sched::Quiet q;
                c = x;
            }
        });
    sched::run(src, threads);
    sched::unwatch_all();
    std::string text;
    for (int t = 0; t < n; ++t)
        for (auto &c : ops[t])
            text += "thread " + std::to_string(t) + ": " + show(c) + " -> " + std::to_string(c.r) +
                    ((c.op == CAS1 || c.op == CAS2) ? (c.ok ? " true" : " false") : "") + "; ";
    if (device >= 0)
        PBT_TRACE(src, "%s", device_name(device));
    PBT_TRACE(src, "%s: %s-> %s", std::to_string(start).c_str(), text.substr(0, 400).c_str(), std::to_string(m).c_str());
    std::vector<std::size_t> at(n, 0);
    std::set<std::pair<std::vector<std::size_t>, T>> dead;
    PBT_CHECK(explain(ops, at, start, m, dead), "no sequential order of the operations explains their outcome: %s-> %s",
              text.substr(0, 1200).c_str(), std::to_string(m).c_str());
    if (sched::interleaved())
        src.nontrivial();
}

/// A thread writes something, then changes the object; another one sees the change, and reads what was written
template <typename T>
void message(Src &src) {
    T m = 0;
    int data[2] = {0, 0};
    int hops = 1 + static_cast<int>(src.draw(2));
    struct Half {
        int op;
        bool defaults;
        memory_order o, f;
    };
    auto sender = [&] {
        Half h;
        h.op = static_cast<int>(src.pick({int(STORE), int(ASSIGN), int(EXCHANGE), int(CAS1), int(CAS2), int(ADD), int(SUB), int(OR), int(XOR)}));
        h.defaults = src.chance(1, 4);
        h.o = h.op == STORE ? src.pick({memory_order::release, memory_order::seq_cst})
                            : src.pick({memory_order::release, memory_order::acq_rel, memory_order::seq_cst});
        h.f = memory_order::relaxed;
        return h;
    };
    auto receiver = [&] {
        Half h;
        h.op = static_cast<int>(src.pick({int(LOAD), int(EXCHANGE), int(CAS1), int(CAS2), int(ADD), int(AND), int(OR), int(XOR)}));
        h.defaults = src.chance(1, 4);
        h.o = h.op == LOAD ? src.pick({memory_order::acquire, memory_order::seq_cst})
                           : src.pick({memory_order::acquire, memory_order::acq_rel, memory_order::seq_cst});
        h.f = src.pick({memory_order::acquire, memory_order::seq_cst});
        return h;
    };
    Half s = sender(), r = receiver(), s2 = sender(), r2 = receiver();
    // the value goes from `from` to `from + 1`
    auto send = [&](const Half &h, T from) {
        vecmem::device_atomic_ref<T> ref(m);
        Call<T> c;
        c.op = h.op;
        c.defaults = h.defaults;
        c.o1 = h.o;
        c.o2 = h.f;
        T to = static_cast<T>(from + 1);
        c.a = h.op == CAS1 || h.op == CAS2 ? from
              : h.op == ADD                ? T(1)
              : h.op == SUB                ? static_cast<T>(-1)
              : h.op == OR                 ? to
              : h.op == XOR                ? static_cast<T>(from ^ to)
                                           : to;
        c.b = to;
        with_order(ref, c);
    };
    auto receive = [&](const Half &h) -> T {
        vecmem::device_atomic_ref<T> ref(m);
        Call<T> c;
        c.op = h.op;
        c.defaults = h.defaults;
        c.o1 = h.o;
        c.o2 = h.f;
        // none of these changes the value
        c.a = h.op == AND ? static_cast<T>(-1) : T(0);
        if (h.op == EXCHANGE || h.op == CAS1 || h.op == CAS2)
            c.a = c.b = static_cast<T>(100);
        if (h.op == EXCHANGE)
            c.op = ADD, c.a = 0;
        with_order(ref, c);
        return c.r;
    };
    PBT_TRACE(src, "message by %s(%s) to %s(%s)%s", op_name(s.op), s.defaults ? "" : order_name(s.o), op_name(r.op),
              r.defaults ? "" : order_name(r.o), hops > 1 ? ", and on to a third thread" : "");
    bool got = false;
    sched::unwatch_all();
    sched::watch(data, sizeof data, "what was written before the change");
    std::vector<std::function<void()>> threads;
    threads.push_back([&] {
        data[0] = 42;
        send(s, 0);
    });
    threads.push_back([&] {
        for (int i = 0; i < 3; ++i)
            if (receive(r) >= 1) {
                PBT_CHECK(data[0] == 42, "a thread sees a change, but not what was written before it");
                sched::quiet([&] { got = true; });
                if (hops > 1) {
                    data[1] = 43;
                    send(s2, 1);
                }
                return;
            }
    });
    if (hops > 1)
        threads.push_back([&] {
            for (int i = 0; i < 3; ++i)
                if (receive(r2) >= 2) {
                    PBT_CHECK(data[0] == 42 && data[1] == 43, "a thread sees a change, but not what was written before it");
                    return;
                }
        });
    sched::run(src, threads);
    sched::unwatch_all();
    if (got)
        src.nontrivial();
}

template <typename T>
void any(Src &src) {
    switch (src.draw(8)) {
        case 0:
            return sequence<T, 1>(src);
        case 1:
            return sequence<T, 2>(src);
        case 2:
        case 3:
            return sequence<T, 0>(src);
        case 4:
        case 5:
        case 6:
            return concurrent<T>(src);
        default:
            return message<T>(src);
    }
}
template <typename T>
void any_device(Src &src) {
    if (src.coin())
        return concurrent<T>(src, static_cast<int>(src.draw(N_DEVICES)));
    device_sequence<T>(src);
}
void run(Src &src) {
    switch (src.draw(14)) {
        case 10:
            return any_device<int>(src);
        case 11:
            return any_device<unsigned int>(src);
        case 12:
            return any_device<unsigned long long>(src);
        case 0:
            return any<int>(src);
        case 1:
            return any<unsigned int>(src);
        case 2:
            return any<signed char>(src);
        case 3:
            return any<unsigned char>(src);
        case 4:
            return any<short>(src);
        case 5:
            return any<unsigned short>(src);
        case 6:
            return any<long>(src);
        case 7:
            return any<unsigned long>(src);
        case 8:
            return any<long long>(src);
        case 9:
            return any<unsigned long long>(src);
        default:
            return any<char>(src);
    }
}
}  // namespace harness
