// Deterministic scheduler for code compiled with -fsanitize=thread instrumentation: threads are fibers, every
// access to shared memory and every lock is a point at which the generator decides who runs next.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include "pbt.hpp"

namespace pbt {
namespace sched {

constexpr int MAX_THREADS = 6;

/// Runs all functions to their end, interleaved as drawn from the source. Rethrows the first failure.
void run(Src &src, const std::vector<std::function<void()>> &threads);

/// Which thread is running (0..), or -1 outside of run()
int self();
/// A point at which others may run
void yield();
/// Number of points at which another thread could have run, and did run, in the last run()
uint64_t points();
uint64_t switches();
/// Did all of the threads run at least two pieces, interleaved with another one?
bool interleaved();
/// An event counter that orders everything in a run
uint64_t now();

/// While one of these exists, the running thread is not interrupted, and its accesses are not seen
struct Quiet {
    Quiet();
    ~Quiet();
    Quiet(const Quiet &) = delete;
};
template <typename F>
auto quiet(F f) {
    Quiet q;
    return f();
}

/// Find unordered conflicting accesses (data races) in this memory
void watch(const void *p, std::size_t n, const char *what);
void unwatch_all();
/// An explicit plain access to watched memory (for uninstrumented code)
void access(const void *p, std::size_t n, bool write);

/// Atomic operations that were made since the last call: by kind, the strongest memory order of them (-1: none)
struct Atomics {
    int load = -1, store = -1, rmw = -1;
    int fence = -1;
};
Atomics take_atomics();
}  // namespace sched
}  // namespace pbt
