// Instrumenting resource and memory monitor against the actual history.
// check: lib=memory,utils
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/utils/memory_monitor.hpp>

#include <cmath>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P21";
const char *const rule =
    "random history with upstream failures, hooks and a monitor attached at random moments; "
    "non-trivial: a failed allocation, a hook added while blocks were live, and a deallocation";
const uint64_t quick_cases = 750000;
const uint64_t thorough_cases = 9000000;

using IMR = vecmem::instrumenting_memory_resource;

struct Call {
    char kind;  // 'a' pre-alloc, 'A' post-alloc, 'd' pre-dealloc, 'u' upstream alloc, 'U' upstream dealloc
    int hook;
    std::size_t size, align;
    void *ptr;
    std::size_t n_events;  // events recorded when the hook ran
    bool operator==(const Call &o) const {
        return kind == o.kind && hook == o.hook && size == o.size && align == o.align && ptr == o.ptr;
    }
};

class LoggingUp : public ModelUpstream {
public:
    using ModelUpstream::ModelUpstream;
    std::vector<Call> *log = nullptr;

protected:
    void *do_allocate(std::size_t s, std::size_t a) override {
        if (log)
            log->push_back({'u', 0, s, a, nullptr, 0});
        return ModelUpstream::do_allocate(s, a);
    }
    void do_deallocate(void *p, std::size_t s, std::size_t a) override {
        if (log)
            log->push_back({'U', 0, s, a, p, 0});
        ModelUpstream::do_deallocate(p, s, a);
    }
};

void run(Src &src) {
    LoggingUp up(&src, 0, ModelUpstream::Place::Mixed);
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    std::vector<Call> log;
    up.log = &log;
    if (src.chance(2, 3))
        for (int k = 0; k < 5; ++k)
            up.fail_calls.insert(src.draw(14));
    auto res = std::make_unique<IMR>(up);
    struct Ev {
        bool alloc;
        std::size_t size, align;
        void *ptr;
    };
    std::vector<Ev> model;
    int n_pre = 0, n_post = 0, n_de = 0;
    struct Mon {
        std::unique_ptr<vecmem::memory_monitor> m;
        std::size_t total = 0, n = 0, out = 0, maxi = 0;
        std::size_t base = 0;
    };
    std::vector<std::unique_ptr<Mon>> mons;
    LiveSet live;
    bool failed = false, late_hook = false, freed = false;
    auto check_events = [&] {
        auto &ev = res->get_events();
        PBT_CHECK(ev.size() == model.size(), "%zu events recorded, %zu happened", ev.size(), model.size());
        for (std::size_t i = 0; i < ev.size(); ++i) {
            bool isalloc = ev[i].m_type == IMR::memory_event::type::ALLOCATION;
            PBT_CHECK(isalloc == model[i].alloc && ev[i].m_size == model[i].size &&
                          ev[i].m_align == model[i].align && ev[i].m_ptr == model[i].ptr,
                      "event %zu is (%s %zu %zu %p), but (%s %zu %zu %p) happened", i,
                      isalloc ? "alloc" : "dealloc", ev[i].m_size, ev[i].m_align, ev[i].m_ptr,
                      model[i].alloc ? "alloc" : "dealloc", model[i].size, model[i].align, model[i].ptr);
        }
    };
    auto check_mons = [&] {
        for (auto &m : mons) {
            PBT_CHECK(m->m->total_allocation() == m->total, "total_allocation() is %zu, not %zu",
                      m->m->total_allocation(), m->total);
            PBT_CHECK(m->m->outstanding_allocation() == m->out,
                      "outstanding_allocation() is %zu, not %zu", m->m->outstanding_allocation(), m->out);
            PBT_CHECK(m->m->maximal_allocation() == m->maxi, "maximal_allocation() is %zu, not %zu",
                      m->m->maximal_allocation(), m->maxi);
            std::size_t avg = m->m->average_allocation();
            if (m->n == 0) {
                PBT_CHECK(avg == 0, "average_allocation() is %zu without any allocation", avg);
            } else {
                std::size_t lo = m->total / m->n, hi = (m->total + m->n - 1) / m->n;
                std::size_t want = (2 * (m->total % m->n) >= m->n) ? hi : lo;
                PBT_CHECK(avg == want, "average_allocation() is %zu, not %zu", avg, want);
            }
        }
    };
    auto expect_log = [&](const std::vector<Call> &want) {
        PBT_CHECK(log.size() == want.size(), "%zu hook/upstream calls instead of %zu", log.size(), want.size());
        for (std::size_t i = 0; i < want.size(); ++i)
            PBT_CHECK(log[i] == want[i],
                      "call %zu was (%c #%d %zu %zu %p) instead of (%c #%d %zu %zu %p)", i, log[i].kind,
                      log[i].hook, log[i].size, log[i].align, log[i].ptr, want[i].kind, want[i].hook,
                      want[i].size, want[i].align, want[i].ptr);
    };
    auto release = [&](uintptr_t a) {
        auto b = live.take(a);
        void *p = reinterpret_cast<void *>(a);
        PBT_TRACE(src, "free(%zu,%zu)", b.size, b.align);
        log.clear();
        res->deallocate(p, b.size, b.align);
        check_sticky();
        std::vector<Call> want;
        for (int i = 0; i < n_de; ++i)
            want.push_back({'d', i, b.size, b.align, p, 0});
        want.push_back({'U', 0, b.size, b.align, p, 0});
        expect_log(want);
        for (auto &c : log)
            if (c.kind == 'd')
                PBT_CHECK(c.n_events == model.size(), "deallocation hook ran at the wrong moment");
        model.push_back({false, b.size, b.align, p});
        for (auto &m : mons)
            m->out -= b.size;
        freed = true;
    };
    pbt::History hist(src, thorough() ? 60 : 30);
    int nops = hist.length();
    for (int op = 0; op < nops; ++op) {
        unsigned w = hist.next(20, 9, 14);
        if (w < 9) {
            std::size_t size = 1 + src.draw(1000), align = std::size_t(1) << src.draw(8);
            if (huge && src.chance(1, 3))
                size = huge_size(src);
            PBT_TRACE(src, "alloc(%zu,%zu)", size, align);
            log.clear();
            up.clear_events();
            void *q = nullptr;
            bool threw = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
            check_sticky();
            bool up_failed = !up.events().empty() && up.events()[0].failed;
            PBT_CHECK(threw == up_failed, "upstream %s, the caller saw %s", up_failed ? "failed" : "succeeded",
                      threw ? "bad_alloc" : "success");
            if (threw)
                q = nullptr;
            std::vector<Call> want;
            for (int i = 0; i < n_pre; ++i)
                want.push_back({'a', i, size, align, nullptr, 0});
            want.push_back({'u', 0, size, align, nullptr, 0});
            for (int i = 0; i < n_post; ++i)
                want.push_back({'A', i, size, align, q, 0});
            expect_log(want);
            model.push_back({true, size, align, q});
            failed = failed || threw;
            if (!threw) {
                PBT_CHECK(reinterpret_cast<uintptr_t>(opaque(q)) == up.events()[0].ptr,
                          "not the pointer that upstream gave");
                live.add(q, size, align, align);
                for (auto &m : mons) {
                    m->total += size;
                    ++m->n;
                    m->out += size;
                    m->maxi = std::max(m->maxi, m->out);
                }
            }
        } else if (w < 14) {
            if (!live.empty())
                release(live.nth(src.draw(live.size())));
        } else if (w < 17) {
            if (!live.empty())
                late_hook = true;
            switch (src.draw(3)) {
                case 0: {
                    int h = n_pre++;
                    PBT_TRACE(src, "add pre-allocate hook");
                    res->add_pre_allocate_hook([&log, h](std::size_t s, std::size_t a) {
                        log.push_back({'a', h, s, a, nullptr, 0});
                    });
                    break;
                }
                case 1: {
                    int h = n_post++;
                    PBT_TRACE(src, "add post-allocate hook");
                    res->add_post_allocate_hook([&log, h](std::size_t s, std::size_t a, void *p) {
                        log.push_back({'A', h, s, a, p, 0});
                    });
                    break;
                }
                default: {
                    int h = n_de++;
                    PBT_TRACE(src, "add pre-deallocate hook");
                    auto *r = &res;
                    res->add_pre_deallocate_hook([&log, h, r](void *p, std::size_t s, std::size_t a) {
                        log.push_back({'d', h, s, a, p, (*r)->get_events().size()});
                    });
                    break;
                }
            }
        } else if (w < 18) {
            // the monitor only knows what happened since it was attached
            if (live.empty() && mons.size() < 3) {
                PBT_TRACE(src, "attach monitor");
                auto m = std::make_unique<Mon>();
                m->m = std::make_unique<vecmem::memory_monitor>(*res);
                mons.push_back(std::move(m));
            }
        } else if (w < 19) {
            PBT_TRACE(src, "move");
            auto m = std::make_unique<IMR>(std::move(*res));
            res = std::move(m);
        } else {
            PBT_TRACE(src, "alloc(0), free(null)");
            log.clear();
            PBT_CHECK(alloc(*res, 0, 8) == nullptr, "zero-size request not null");
            res->deallocate(nullptr, 8, 8);
            PBT_CHECK(log.empty(), "zero-size request or null deallocation was processed");
        }
        check_events();
        check_mons();
        live.verify_all();
    }
    while (!live.empty())
        release(live.nth(src.draw(live.size())));
    check_events();
    check_mons();
    res.reset();
    check_sticky();
    up.expect_balanced("everything freed");
    if (failed && late_hook && freed)
        src.nontrivial();
}
}  // namespace harness
