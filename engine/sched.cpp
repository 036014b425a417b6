// See sched.hpp. Defines what the -fsanitize=thread instrumentation calls, and the locks of the C library.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <pthread.h>
#include <sched.h>
#include <sys/mman.h>
#include <time.h>

#include <algorithm>
#include <cstdlib>
#include <map>
#include <unordered_map>

extern "C" void pbt_switch(void **save, void *load);
asm(R"(
.text
.globl pbt_switch
.type pbt_switch,@function
pbt_switch:
    pushq %rbp
    pushq %rbx
    pushq %r12
    pushq %r13
    pushq %r14
    pushq %r15
    movq %rsp, (%rdi)
    movq %rsi, %rsp
    popq %r15
    popq %r14
    popq %r13
    popq %r12
    popq %rbx
    popq %rbp
    ret
.size pbt_switch,.-pbt_switch
)");

namespace pbt {
namespace sched {
namespace {

constexpr std::size_t STACK = std::size_t(256) << 10;
constexpr int MAIN = MAX_THREADS;  // index of the initial thread in clocks
using Clock = uint32_t;
struct VC {
    Clock c[MAX_THREADS + 1] = {};
    void join(const VC &o) {
        for (int i = 0; i <= MAX_THREADS; ++i)
            c[i] = std::max(c[i], o.c[i]);
    }
};

struct EhGlobals {
    void *caught;
    unsigned int uncaught;
};

struct Fiber {
    char *stack = nullptr;
    void *sp = nullptr;
    bool done = true;
    const void *blocked = nullptr;  // waits for this object
    bool sleeping = false;          // timed wait
    int quiet = 0;
    EhGlobals eh{};
    const std::function<void()> *fn = nullptr;
    std::exception_ptr error;
    VC vc;
    uint64_t pieces = 0;
};

struct Lock {
    int owner = -1;  // exclusive
    int depth = 0;
    int readers = 0;
    VC vc;
};
struct Cell {
    // last accesses of one byte
    Clock w = 0;
    signed char wt = -1;
    bool wa = false;
    Clock r[MAX_THREADS + 1] = {}, ra[MAX_THREADS + 1] = {};  // plain and atomic reads
};
struct Watched {
    uintptr_t b, e;
    std::string what;
};

Fiber g_f[MAX_THREADS];
int g_n = 0;
int g_cur = -1;
bool g_running = false;
int g_main_quiet = 0;
void *g_main_sp;
EhGlobals g_main_eh;
VC g_main_vc;
Src *g_src = nullptr;
uint64_t g_points, g_switches, g_now, g_same;
int g_mode, g_num, g_den;
std::vector<uint64_t> g_preempt;
std::map<const void *, Lock> *g_locks;
std::unordered_map<uintptr_t, VC> *g_sync;
std::unordered_map<uintptr_t, Cell> *g_cells;
std::vector<Watched> g_watch;
bool g_failed = false;
std::string g_schedule;

struct Init {
    Init() {
        g_locks = new std::map<const void *, Lock>;
        g_sync = new std::unordered_map<uintptr_t, VC>;
        g_cells = new std::unordered_map<uintptr_t, Cell>;
    }
} g_init;

EhGlobals *eh() {
    return reinterpret_cast<EhGlobals *>(abi::__cxa_get_globals());
}
VC &vc() {
    return g_cur >= 0 ? g_f[g_cur].vc : g_main_vc;
}
int tid() {
    return g_cur >= 0 ? g_cur : MAIN;
}

void to_main() {
    Fiber &f = g_f[g_cur];
    f.eh = *eh();
    *eh() = g_main_eh;
    g_cur = -1;
    pbt_switch(&f.sp, g_main_sp);
}
void entry() {
    for (;;) {
        Fiber &f = g_f[g_cur];
        try {
            (*f.fn)();
        } catch (...) {
            f.error = std::current_exception();
        }
        f.done = true;
        to_main();
    }
}
/// Code of the scheduler itself may be shared with instrumented code (templates): it is not looked at
int g_busy = 0;
struct Busy {
    Busy() { ++g_busy; }
    ~Busy() { --g_busy; }
};
/// Let someone else run (the main context decides)
void give_up() {
    int b = g_busy;
    g_busy = 0;
    to_main();
    // running again
    g_busy = b;
}

bool on_own_stack(uintptr_t a) {
    uintptr_t s = reinterpret_cast<uintptr_t>(g_f[g_cur].stack);
    return a >= s && a < s + STACK;
}

int others() {
    int n = 0;
    for (int i = 0; i < g_n; ++i)
        n += i != g_cur && !g_f[i].done && g_f[i].blocked == nullptr;
    return n;
}

void point(bool strong) {
    if (!g_running || g_cur < 0 || g_f[g_cur].quiet > 0)
        return;
    ++g_now;
    if (others() == 0) {
        if (++g_same > 400000) {
            g_same = 0;
            sticky_fail("a thread does not come to an end (schedule %s)", g_schedule.c_str());
            g_failed = true;
            give_up();
        }
        return;
    }
    ++g_points;
    bool sw = strong;
    if (!sw) {
        if (++g_same > 300) {
            sw = true;  // may be waiting for someone else
        } else if (g_mode == 0) {
            sw = g_points < 3000 && g_src->chance(g_num, g_den);
        } else {
            for (uint64_t p : g_preempt)
                sw = sw || p == g_points;
        }
    }
    if (g_now > 3000000) {
        sticky_fail("the threads do not come to an end (schedule %s)", g_schedule.substr(0, 300).c_str());
        g_failed = true;
        sw = true;
    }
    if (sw)
        give_up();
}

// ---------------------------------------------------------------------------------------------------- data races
const Watched *watched(uintptr_t a) {
    for (auto &w : g_watch)
        if (a >= w.b && a < w.e)
            return &w;
    return nullptr;
}
void race(uintptr_t a, std::size_t n, bool write, bool atomic) {
    if (!g_running || g_watch.empty())
        return;
    if (g_cur >= 0 && g_f[g_cur].quiet > 0)
        return;
    const Watched *w = watched(a);
    if (!w)
        return;
    VC &v = vc();
    int t = tid();
    for (std::size_t i = 0; i < n; ++i) {
        Cell &c = (*g_cells)[a + i];
        bool bad = false;
        if (c.wt >= 0 && c.wt != t && !(atomic && c.wa) && c.w > v.c[c.wt])
            bad = true;
        if (write)
            for (int k = 0; k <= MAX_THREADS; ++k) {
                if (k == t)
                    continue;
                bad = bad || c.r[k] > v.c[k];
                bad = bad || (!atomic && c.ra[k] > v.c[k]);
            }
        if (bad && !g_failed) {
            sticky_fail("two threads access byte %zu of %s, at least one writing, without any order between them (schedule %s)",
                        static_cast<std::size_t>(a + i - w->b), w->what.c_str(), g_schedule.substr(0, 300).c_str());
            g_failed = true;
        }
        if (write) {
            c.w = v.c[t];
            c.wt = static_cast<signed char>(t);
            c.wa = atomic;
        } else if (atomic)
            c.ra[t] = v.c[t];
        else
            c.r[t] = v.c[t];
    }
}
void plain(uintptr_t a, std::size_t n, bool write) {
    if (!g_running || g_cur < 0 || g_busy || g_f[g_cur].quiet > 0 || on_own_stack(a))
        return;
    Busy b;
    point(false);
    race(a, n, write, false);
}
void acquire(const VC &s) {
    vc().join(s);
}
void release(VC &s, bool keep) {
    if (!keep)
        s = VC();
    s.join(vc());
    vc().c[tid()]++;
}
bool is_acq(int mo) {
    return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST || mo == __ATOMIC_CONSUME;
}
bool is_rel(int mo) {
    return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST;
}
enum What { LOAD, STORE, RMW };
Atomics g_seen;
int strength(int mo) {
    // relaxed, consume, acquire and release, both, all
    return mo == __ATOMIC_RELAXED ? 0 : mo == __ATOMIC_CONSUME ? 1 : mo == __ATOMIC_SEQ_CST ? 4 : mo == __ATOMIC_ACQ_REL ? 3 : 2;
}
void seen(What w, int mo) {
    int &s = w == LOAD ? g_seen.load : w == STORE ? g_seen.store : g_seen.rmw;
    if (s < 0 || strength(mo) > strength(s))
        s = mo;
}
/// Before the operation
void before_atomic(uintptr_t a) {
    if (!g_running || g_cur < 0 || g_busy || g_f[g_cur].quiet > 0 || on_own_stack(a))
        return;
    Busy b;
    point(false);
}
/// Its effect on the order of events
void after_atomic(uintptr_t a, std::size_t n, What w, int mo) {
    seen(w, mo);
    if (!g_running || g_busy)
        return;
    Busy b;
    race(a, n, w != LOAD, true);
    if (g_cur < 0)
        return;
    VC &s = (*g_sync)[a];
    if (w != STORE && is_acq(mo))
        acquire(s);
    if (w == STORE)
        is_rel(mo) ? release(s, false) : (void)(s = VC());
    else if (w == RMW && is_rel(mo))
        release(s, true);
}

// --------------------------------------------------------------------------------------------------------- locks
bool lock_exclusive(const void *m, bool recursive, bool wait, bool timed, const char *what) {
    Busy b;
    if (g_cur >= 0)
        point(false);
    for (;;) {
        Lock &l = (*g_locks)[m];
        int me = tid();
        if (l.owner == me && recursive) {
            ++l.depth;
            return true;
        }
        if (l.owner < 0 && l.readers == 0) {
            l.owner = me;
            l.depth = 1;
            acquire(l.vc);
            return true;
        }
        if (!wait)
            return false;
        if (g_cur < 0) {
            // all others are gone
            if (!g_failed)
                sticky_fail("%s is locked by someone who does not unlock it any more", what);
            l.owner = me;
            l.depth = 1;
            return true;
        }
        if (timed && g_src->chance(1, 4))
            return false;
        g_f[g_cur].blocked = m;
        g_f[g_cur].sleeping = timed;
        give_up();
    }
}
bool lock_shared(const void *m, bool wait, bool timed) {
    Busy b;
    if (g_cur >= 0)
        point(false);
    for (;;) {
        Lock &l = (*g_locks)[m];
        if (l.owner < 0) {
            ++l.readers;
            acquire(l.vc);
            return true;
        }
        if (!wait || g_cur < 0)
            return false;
        if (timed && g_src->chance(1, 4))
            return false;
        g_f[g_cur].blocked = m;
        g_f[g_cur].sleeping = timed;
        give_up();
    }
}
void wake(const void *m) {
    for (int i = 0; i < g_n; ++i)
        if (g_f[i].blocked == m) {
            g_f[i].blocked = nullptr;
            g_f[i].sleeping = false;
        }
}
void unlock(const void *m) {
    Busy b;
    Lock &l = (*g_locks)[m];
    if (l.readers > 0) {
        --l.readers;
    } else if (--l.depth > 0) {
        return;
    } else {
        l.owner = -1;
    }
    release(l.vc, true);
    if (l.owner < 0)
        wake(m);
    if (g_cur >= 0)
        point(false);
}
}  // namespace

int self() {
    return g_cur;
}
void yield() {
    Busy b;
    point(false);
}
Atomics take_atomics() {
    Atomics a = g_seen;
    g_seen = Atomics();
    return a;
}
uint64_t points() {
    return g_points;
}
uint64_t switches() {
    return g_switches;
}
bool interleaved() {
    for (int i = 0; i < g_n; ++i)
        if (g_f[i].pieces >= 2)
            return true;
    return false;
}
uint64_t now() {
    return ++g_now;
}
Quiet::Quiet() {
    ++(g_cur >= 0 ? g_f[g_cur].quiet : g_main_quiet);
}
Quiet::~Quiet() {
    --(g_cur >= 0 ? g_f[g_cur].quiet : g_main_quiet);
}
void watch(const void *p, std::size_t n, const char *what) {
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    g_watch.push_back({a, a + n, what});
}
void unwatch_all() {
    g_watch.clear();
    g_cells->clear();
}
void access(const void *p, std::size_t n, bool write) {
    int &q = g_cur >= 0 ? g_f[g_cur].quiet : g_main_quiet, was = q;
    q = 0;
    race(reinterpret_cast<uintptr_t>(p), n, write, false);
    q = was;
}

void run(Src &src, const std::vector<std::function<void()>> &threads) {
    g_src = &src;
    g_n = static_cast<int>(threads.size());
    if (g_n > MAX_THREADS)
        fail("too many threads");
    g_points = g_switches = g_now = g_same = 0;
    g_failed = false;
    g_schedule.clear();
    g_sync->clear();
    g_cells->clear();
    g_locks->clear();
    g_main_vc = VC();
    g_main_vc.c[MAIN] = 1;
    // how to schedule: at random with some density, or a few preemptions
    g_mode = static_cast<int>(src.draw(2));
    g_num = 1;
    g_den = static_cast<int>(2 + src.draw(6));
    g_preempt.clear();
    if (g_mode == 1) {
        unsigned n = static_cast<unsigned>(1 + src.draw(4));
        uint64_t len = src.pick({8, 24, 64, 200});
        for (unsigned i = 0; i < n; ++i)
            g_preempt.push_back(1 + src.draw(len));
    }
    for (int i = 0; i < g_n; ++i) {
        Fiber &f = g_f[i];
        if (!f.stack) {
            f.stack = static_cast<char *>(mmap(nullptr, STACK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0));
            if (f.stack == MAP_FAILED) {
                perror("mmap");
                exit(2);
            }
        }
        f.done = false;
        f.blocked = nullptr;
        f.sleeping = false;
        f.quiet = 0;
        f.eh = EhGlobals{nullptr, 0};
        f.fn = &threads[i];
        f.error = nullptr;
        f.pieces = 0;
        f.vc = g_main_vc;
        f.vc.c[i] = 1;
        void **sp = reinterpret_cast<void **>(f.stack + STACK - 64);
        *--sp = nullptr;  // alignment: entry() sees a return address here
        *--sp = reinterpret_cast<void *>(&entry);
        for (int k = 0; k < 6; ++k)
            *--sp = nullptr;
        f.sp = sp;
    }
    g_running = true;
    int last = -1;
    bool deadlock = false;
    std::exception_ptr err;
    for (;;) {
        int can[MAX_THREADS], n = 0;
        bool alive = false;
        // the others first (so that a switch is one)
        for (int k = 0; k < g_n; ++k) {
            int i = (last + 1 + k) % g_n;
            alive = alive || !g_f[i].done;
            if (!g_f[i].done && g_f[i].blocked == nullptr)
                can[n++] = i;
        }
        if (!alive)
            break;
        if (n == 0) {
            // someone whose waiting has a limit?
            for (int i = 0; i < g_n; ++i)
                if (!g_f[i].done && g_f[i].sleeping) {
                    g_f[i].blocked = nullptr;
                    g_f[i].sleeping = false;
                    can[n++] = i;
                }
        }
        if (n == 0) {
            deadlock = true;
            break;
        }
        int m = n;
        if (n > 1 && can[n - 1] == last)
            m = n - 1;
        int k = can[m > 1 ? src.draw(m) : 0];
        if (k != last) {
            ++g_switches;
            g_same = 0;
            g_f[k].pieces++;
            if (g_schedule.size() < 1000) {
                g_schedule += static_cast<char>('a' + k);
                g_schedule += '@' + std::to_string(g_now) + ' ';
            }
        }
        last = k;
        g_main_eh = *eh();
        *eh() = g_f[k].eh;
        g_cur = k;
        pbt_switch(&g_main_sp, g_f[k].sp);
        if (g_f[k].error) {
            err = g_f[k].error;
            g_f[k].error = nullptr;
            break;
        }
        if (g_failed)
            break;
    }
    for (int i = 0; i < g_n; ++i)
        g_main_vc.join(g_f[i].vc);
    g_running = false;
    g_cur = -1;
    PBT_TRACE(src, "schedule %s", g_schedule.c_str());
    if (err) {
        g_failed = true;
        std::rethrow_exception(err);
    }
    check_sticky();
    if (deadlock) {
        g_failed = true;
        fail("deadlock: no thread can continue (schedule %s)", g_schedule.substr(0, 300).c_str());
    }
}
}  // namespace sched
}  // namespace pbt

// ---------------------------------------------------------------------------------------- the instrumentation
using namespace pbt::sched;
#define ACCESS(name, n, w) \
    extern "C" void name(void *a) { plain(reinterpret_cast<uintptr_t>(a), n, w); }
#define ACCESSES(n)                        \
    ACCESS(__tsan_read##n, n, false)       \
    ACCESS(__tsan_write##n, n, true)       \
    ACCESS(__tsan_unaligned_read##n, n, false) \
    ACCESS(__tsan_unaligned_write##n, n, true) \
    ACCESS(__tsan_volatile_read##n, n, false)  \
    ACCESS(__tsan_volatile_write##n, n, true)  \
    extern "C" void __tsan_read_write##n(void *a) { plain(reinterpret_cast<uintptr_t>(a), n, false); plain(reinterpret_cast<uintptr_t>(a), n, true); } \
    extern "C" void __tsan_unaligned_read_write##n(void *a) { plain(reinterpret_cast<uintptr_t>(a), n, false); plain(reinterpret_cast<uintptr_t>(a), n, true); }
ACCESSES(1)
ACCESSES(2)
ACCESSES(4)
ACCESSES(8)
ACCESSES(16)
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_read(void **) {}
void __tsan_vptr_update(void **, void *) {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
void __tsan_read_range(void *a, unsigned long n) { plain(reinterpret_cast<uintptr_t>(a), n, false); }
void __tsan_write_range(void *a, unsigned long n) { plain(reinterpret_cast<uintptr_t>(a), n, true); }
void *__tsan_memcpy(void *d, const void *s, unsigned long n) {
    plain(reinterpret_cast<uintptr_t>(s), n, false);
    plain(reinterpret_cast<uintptr_t>(d), n, true);
    return __builtin_memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, unsigned long n) {
    plain(reinterpret_cast<uintptr_t>(s), n, false);
    plain(reinterpret_cast<uintptr_t>(d), n, true);
    return __builtin_memmove(d, s, n);
}
void *__tsan_memset(void *d, int v, unsigned long n) {
    plain(reinterpret_cast<uintptr_t>(d), n, true);
    return __builtin_memset(d, v, n);
}
void __tsan_atomic_thread_fence(int mo) {
    g_seen.fence = std::max(g_seen.fence, mo);
    point(false);
}
void __tsan_atomic_signal_fence(int) {}
}
#define RMW_OP(bits, T, op, expr)                                                   \
    extern "C" T __tsan_atomic##bits##_##op(volatile T *a, T v, int mo) {           \
        before_atomic(reinterpret_cast<uintptr_t>(a));                             \
        T old = *a;                                                                 \
        *a = static_cast<T>(expr);                                                  \
        after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), RMW, mo);          \
        return old;                                                                 \
    }
#define ATOMICS(bits, T)                                                                                         \
    extern "C" T __tsan_atomic##bits##_load(const volatile T *a, int mo) {                                       \
        before_atomic(reinterpret_cast<uintptr_t>(a));                                                          \
        T v = *a;                                                                                                \
        after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), LOAD, mo);                                      \
        return v;                                                                                                \
    }                                                                                                            \
    extern "C" void __tsan_atomic##bits##_store(volatile T *a, T v, int mo) {                                    \
        before_atomic(reinterpret_cast<uintptr_t>(a));                                                          \
        *a = v;                                                                                                  \
        after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), STORE, mo);                                     \
    }                                                                                                            \
    RMW_OP(bits, T, exchange, v)                                                                                 \
    RMW_OP(bits, T, fetch_add, old + v)                                                                          \
    RMW_OP(bits, T, fetch_sub, old - v)                                                                          \
    RMW_OP(bits, T, fetch_and, old & v)                                                                          \
    RMW_OP(bits, T, fetch_or, old | v)                                                                           \
    RMW_OP(bits, T, fetch_xor, old ^ v)                                                                          \
    RMW_OP(bits, T, fetch_nand, ~(old & v))                                                                      \
    extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *a, T *e, T d, int mo, int fmo) {     \
        before_atomic(reinterpret_cast<uintptr_t>(a));                                                          \
        T old = *a;                                                                                              \
        if (old == *e) {                                                                                         \
            *a = d;                                                                                              \
            after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), RMW, mo);                                   \
            return 1;                                                                                            \
        }                                                                                                        \
        *e = old;                                                                                                \
        after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), LOAD, fmo);                                     \
        return 0;                                                                                                \
    }                                                                                                            \
    extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *a, T *e, T d, int mo, int fmo) {       \
        /* may fail for no reason */                                                                             \
        before_atomic(reinterpret_cast<uintptr_t>(a));                                                          \
        T old = *a;                                                                                              \
        if (old == *e && !(g_running && g_cur >= 0 && g_src->chance(1, 8))) {                                    \
            *a = d;                                                                                              \
            after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), RMW, mo);                                   \
            return 1;                                                                                            \
        }                                                                                                        \
        *e = old;                                                                                                \
        after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), LOAD, fmo);                                     \
        return 0;                                                                                                \
    }                                                                                                            \
    extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *a, T e, T d, int mo, int fmo) {           \
        before_atomic(reinterpret_cast<uintptr_t>(a));                                                          \
        T old = *a;                                                                                              \
        if (old == e) {                                                                                          \
            *a = d;                                                                                              \
            after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), RMW, mo);                                   \
        } else                                                                                                   \
            after_atomic(reinterpret_cast<uintptr_t>(a), sizeof(T), LOAD, fmo);                                 \
        return old;                                                                                              \
    }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)

// -------------------------------------------------------------------------------------------------------- locks
extern "C" {
static bool is_recursive(pthread_mutex_t *m) {
    return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE_NP;
}
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int kind = 0;
    if (a)
        pthread_mutexattr_gettype(a, &kind);
    __builtin_memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    g_locks->erase(m);
    return 0;
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    g_locks->erase(m);
    return 0;
}
int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!g_running)
        return 0;
    lock_exclusive(m, is_recursive(m), true, false, "a mutex");
    return 0;
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!g_running)
        return 0;
    return lock_exclusive(m, is_recursive(m), false, false, "a mutex") ? 0 : EBUSY;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) {
    if (!g_running)
        return 0;
    return lock_exclusive(m, is_recursive(m), true, true, "a mutex") ? 0 : ETIMEDOUT;
}
int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *t) {
    return pthread_mutex_timedlock(m, t);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (g_running)
        unlock(m);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *m) {
    if (g_running)
        lock_shared(m, true, false);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *m) {
    return !g_running || lock_shared(m, false, false) ? 0 : EBUSY;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *m) {
    if (g_running)
        lock_exclusive(m, false, true, false, "a lock");
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *m) {
    return !g_running || lock_exclusive(m, false, false, false, "a lock") ? 0 : EBUSY;
}
int pthread_rwlock_unlock(pthread_rwlock_t *m) {
    if (g_running)
        unlock(m);
    return 0;
}
int pthread_spin_lock(pthread_spinlock_t *m) {
    if (g_running)
        lock_exclusive(const_cast<int *>(m), false, true, false, "a lock");
    return 0;
}
int pthread_spin_unlock(pthread_spinlock_t *m) {
    if (g_running)
        unlock(const_cast<int *>(m));
    return 0;
}
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!g_running || g_cur < 0)
        return 0;
    unlock(m);
    // (spurious wake ups are possible)
    if (!g_src->chance(1, 8)) {
        g_f[g_cur].blocked = c;
        give_up();
    }
    lock_exclusive(m, false, true, false, "a mutex");
    return 0;
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) {
    if (!g_running || g_cur < 0)
        return ETIMEDOUT;
    unlock(m);
    bool out = g_src->chance(1, 4);
    if (!out) {
        g_f[g_cur].blocked = c;
        g_f[g_cur].sleeping = true;
        give_up();
    }
    lock_exclusive(m, false, true, false, "a mutex");
    return out ? ETIMEDOUT : 0;
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *t) {
    return pthread_cond_timedwait(c, m, t);
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!g_running)
        return 0;
    for (int i = 0; i < g_n; ++i)
        if (g_f[i].blocked == c) {
            g_f[i].blocked = nullptr;
            break;
        }
    if (g_cur >= 0)
        point(false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (g_running)
        wake(c);
    if (g_running && g_cur >= 0)
        point(false);
    return 0;
}
int sched_yield() {
    if (g_running)
        point(true);
    return 0;
}
int nanosleep(const struct timespec *, struct timespec *) {
    if (g_running)
        point(true);
    return 0;
}
int clock_nanosleep(clockid_t, int, const struct timespec *, struct timespec *) {
    return nanosleep(nullptr, nullptr);
}
/// Initialisation of local statics: another thread waits for the one that does it
}
namespace __cxxabiv1 {
extern "C" {
int __cxa_guard_acquire(abi::__guard *gg) {
    char *g = reinterpret_cast<char *>(gg);
    for (;;) {
        if (g[0])
            return 0;
        if (!g[1]) {
            g[1] = 1;
            return 1;
        }
        if (!g_running || g_cur < 0)
            return 1;
        g_f[g_cur].blocked = g;
        give_up();
    }
}
void __cxa_guard_release(abi::__guard *gg) noexcept {
    char *g = reinterpret_cast<char *>(gg);
    g[0] = 1;
    g[1] = 0;
    wake(g);
}
void __cxa_guard_abort(abi::__guard *gg) noexcept {
    char *g = reinterpret_cast<char *>(gg);
    g[1] = 0;
    wake(g);
}
}
}
extern "C" {
/// Threads have identities of their own
pthread_t pthread_self() {
    pthread_t real = reinterpret_cast<pthread_t>(__builtin_thread_pointer());
    return g_running && g_cur >= 0 ? real + 1 + g_cur : real;
}
}
