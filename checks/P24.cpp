// Generated schedules of threads that use one synchronized resource, with yield points at every shared access and lock.
// check: lib=memory mode=sched
// assume: sequentially consistent interleavings of at most 4 threads; data races are found by happens-before clocks
#include <vecmem/memory/synchronized_memory_resource.hpp>

#include "sched.hpp"
#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P24";
const char *const rule =
    "2..4 threads with 1..4 allocations and deallocations each through one synchronized resource (or its successor "
    "after a move or an assignment) over a slow model upstream, or over a stack of resources, with failing upstream "
    "calls; non-trivial: the threads were interleaved (a thread was resumed after another one had run)";
const uint64_t quick_cases = 1500000;
const uint64_t thorough_cases = 18000000;

/// Takes its time, and must not be disturbed meanwhile
class SlowUpstream : public ModelUpstream {
public:
    struct Event {
        int thread;
        bool alloc, failed;
        void *p;
        std::size_t size, align;
    };
    std::vector<Event> log;
    int state = 0;
    unsigned delay = 1;
    bool in_use = false;
    SlowUpstream(Src &src, int region, unsigned delay_) : ModelUpstream(&src, region), delay(delay_) {
        sched::watch(&state, sizeof state, "the state of the upstream");
    }

protected:
    void *do_allocate(std::size_t size, std::size_t align) override {
        Guard g(*this, "allocate");
        void *p = nullptr;
        sched::Quiet q;
        try {
            p = ModelUpstream::do_allocate(size, align);
        } catch (const std::bad_alloc &) {
            log.push_back({sched::self(), true, true, nullptr, size, align});
            throw;
        }
        log.push_back({sched::self(), true, false, p, size, align});
        return p;
    }
    void do_deallocate(void *p, std::size_t size, std::size_t align) override {
        Guard g(*this, "deallocate");
        sched::Quiet q;
        log.push_back({sched::self(), false, false, p, size, align});
        ModelUpstream::do_deallocate(p, size, align);
    }

private:
    struct Guard {
        SlowUpstream &u;
        Guard(SlowUpstream &u_, const char *what) : u(u_) {
            {
                sched::Quiet q;
                PBT_CHECK(!u.in_use, "%s of the upstream is called while another call of it has not returned", what);
                u.in_use = true;
            }
            sched::access(&u.state, sizeof u.state, false);
            for (unsigned i = 0; i < u.delay; ++i)
                sched::yield();
            sched::access(&u.state, sizeof u.state, true);
        }
        ~Guard() { u.in_use = false; }
    };
};

struct Op {
    bool alloc;
    std::size_t size, align;
    // what came of it
    bool failed = false, none = false;  // none: there was nothing to give back
    void *p = nullptr;
};

void run(Src &src) {
    sched::unwatch_all();
    SlowUpstream up(src, 0, 1 + src.draw(3));
    LiveSet live;
    bool stacked = src.chance(1, 3);
    {
        std::unique_ptr<Graph> g;
        vecmem::memory_resource *below = &up;
        if (stacked) {
            g = std::make_unique<Graph>(src, up, 1 + static_cast<int>(src.draw(2)), true, false);
            below = g->top().ptr;
            PBT_TRACE(src, "synchronized on top of %s", g->describe().c_str());
        }
        std::unique_ptr<vecmem::synchronized_memory_resource> first =
                                                                  std::make_unique<vecmem::synchronized_memory_resource>(*below),
                                                              second;
        vecmem::synchronized_memory_resource *res = first.get();
        ModelUpstream other(&src, 1);
        switch (src.draw(4)) {
            case 0:
            case 1:
                break;
            case 2:
                second = std::make_unique<vecmem::synchronized_memory_resource>(std::move(*first));
                if (src.coin())
                    first.reset();
                res = second.get();
                break;
            default:
                second = std::make_unique<vecmem::synchronized_memory_resource>(other);
                if (src.coin())
                    *second = std::move(*first);
                else
                    *second = *first;
                first.reset();
                res = second.get();
        }
        auto align_of = [&](std::size_t a) { return g ? g->promise(static_cast<int>(g->nodes.size()) - 1, a) : a; };
        // what the threads are going to do
        int n = 2 + static_cast<int>(src.draw(3));
        std::vector<std::vector<Op>> ops(n);
        for (auto &o : ops) {
            int k = 1 + static_cast<int>(src.draw(4));
            int have = 0;
            for (int i = 0; i < k; ++i) {
                Op op;
                op.alloc = have == 0 || src.draw(3) < 2;
                have += op.alloc ? 1 : -1;
                op.size = 1 + src.draw(stacked ? 3000 : 200);
                // (what stacks do with requests of no bytes is their choice)
                if (!stacked && op.alloc && src.chance(1, 6))
                    op.size = src.coin() ? 0 : up.max_request + 1;
                op.align = align_of(std::size_t(1) << src.draw(7));
                o.push_back(op);
            }
        }
        if (src.coin())
            for (unsigned i = 0, k = src.draw(4); i < k; ++i)
                up.fail_calls.insert(src.draw(6));
        // blocks may be given back by another thread
        struct Held {
            void *p;
            std::size_t size, align;
        };
        std::vector<std::vector<Held>> held(n);
        bool shared = src.chance(1, 3);
        std::vector<std::function<void()>> threads;
        for (int t = 0; t < n; ++t)
            threads.push_back([&, t] {
                for (auto &op : ops[t]) {
                    if (op.alloc) {
                        void *p = nullptr;
                        bool failed = false;
                        try {
                            p = res->allocate(op.size, op.align);
                        } catch (const std::bad_alloc &) {
                            failed = true;
                        }
                        sched::Quiet q;
                        p = opaque(p);
                        op.failed = failed;
                        op.p = p;
                        PBT_TRACE(src, "thread %d: allocate(%zu, %zu)%s", t, op.size, op.align, failed ? " failed" : "");
                        if (!failed) {
                            if (op.size > 0)
                                live.add(p, op.size, op.align, op.align);
                            held[t].push_back({p, op.size, op.align});
                        }
                    } else {
                        Held h{nullptr, 0, 0};
                        bool any = false;
                        {
                            sched::Quiet q;
                            int from = t;
                            if (shared && held[(t + 1) % n].size() > 0)
                                from = (t + 1) % n;
                            if (!held[from].empty()) {
                                h = held[from].back();
                                held[from].pop_back();
                                any = true;
                                if (h.size > 0)
                                    live.take(reinterpret_cast<uintptr_t>(h.p));
                            }
                            op.none = !any;
                            op.p = h.p;
                            op.size = h.size;
                            op.align = h.align;
                            PBT_TRACE(src, "thread %d: deallocate(%zu, %zu)", t, op.size, op.align);
                        }
                        if (any)
                            res->deallocate(h.p, h.size, h.align);
                    }
                    sched::Quiet q;
                    live.verify_all();
                }
            });
        sched::run(src, threads);
        check_sticky();
        if (sched::interleaved())
            src.nontrivial();
        live.verify_all();
        // every thread's operations, unchanged and in its order
        if (!stacked) {
            std::vector<std::size_t> at(n, 0);
            for (auto &e : up.log) {
                if (e.thread < 0)
                    continue;
                auto &o = ops[e.thread];
                auto &k = at[e.thread];
                while (k < o.size() && o[k].none)
                    ++k;
                PBT_CHECK(k < o.size(), "the upstream saw more operations of thread %d than it made", e.thread);
                PBT_CHECK(o[k].alloc == e.alloc && o[k].size == e.size && o[k].align == e.align && o[k].p == e.p &&
                              o[k].failed == e.failed,
                          "operation %zu of thread %d, %s(%zu, %zu), reached the upstream as %s(%zu, %zu)", k, e.thread,
                          o[k].alloc ? "allocate" : "deallocate", o[k].size, o[k].align, e.alloc ? "allocate" : "deallocate",
                          e.size, e.align);
                ++k;
            }
            for (int t = 0; t < n; ++t) {
                while (at[t] < ops[t].size() && ops[t][at[t]].none)
                    ++at[t];
                PBT_CHECK(at[t] == ops[t].size(), "operations of thread %d did not reach the upstream", t);
            }
        } else {
            for (auto &o : ops)
                for (auto &op : o)
                    PBT_CHECK(!op.alloc || !op.failed || !up.fail_calls.empty(), "an allocation failed although the upstream did not");
        }
        // the resource still works
        up.fail_calls.clear();
        for (auto &h : held)
            for (auto &b : h) {
                if (b.size > 0)
                    live.take(reinterpret_cast<uintptr_t>(b.p));
                res->deallocate(b.p, b.size, b.align);
            }
        void *p = alloc(*res, 8, 8);
        res->deallocate(p, 8, 8);
    }
    check_sticky();
    up.expect_balanced("everything destroyed");
    sched::unwatch_all();
}
}  // namespace harness
