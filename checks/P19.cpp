// Choice, coalescing and conditional resources against the log of several model upstreams.
// check: lib=memory
#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P19";
const char *const rule =
    "random routing (also stateful), random failing upstreams, random interleaving of allocation and "
    "deallocation; non-trivial: two different owners gave out blocks (or a request was refused by "
    "predicate/upstream) and blocks were freed in an order different from their allocation";
const uint64_t quick_cases = 450000;
const uint64_t thorough_cases = 5400000;

void run(Src &src) {
    const int N = 1 + static_cast<int>(pbt::sized(src, 4, 20, 150));
    std::vector<std::unique_ptr<ModelUpstream>> ups;
    for (int i = 0; i < N; ++i) {
        ups.push_back(std::make_unique<ModelUpstream>(&src, i, ModelUpstream::Place::Mixed));
        ups[i]->name = "upstream " + std::to_string(i);
        ups[i]->max_request = std::size_t(1) << 20;
        if (src.chance(1, 3))
            for (int k = 0; k < 6; ++k)
                ups[i]->fail_calls.insert(src.draw(10));
    }
    if (src.chance(1, 3)) {
        src.label("one memory below all upstreams");
        for (auto &u : ups)
            u->share_memory_with(*ups[0]);
    }
    bool huge = src.chance(1, 10);
    for (auto &u : ups)
        huge = huge && u->allow_huge();
    if (huge)
        src.label("huge requests");
    int kind = src.draw(3);
    static const char *names[] = {"choice", "coalescing", "conditional"};
    src.label(names[kind]);
    int picked = -1, calls = 0;
    bool accept = true;
    std::size_t arg_size = 0, arg_align = 0;
    int mode = src.draw(3);
    std::vector<int> order;
    std::unique_ptr<vecmem::memory_resource> res;
    vecmem::choice_memory_resource *choice = nullptr;
    vecmem::coalescing_memory_resource *coal = nullptr;
    vecmem::conditional_memory_resource *cond = nullptr;
    std::size_t lim = src.draw(300);
    auto decide = [&](std::size_t s, std::size_t a) -> uint64_t {
        ++calls;
        arg_size = s;
        arg_align = a;
        switch (mode) {
            case 0: return s <= lim ? 0 : 1;                  // by size
            case 1: return (s * 7 + a + lim) >> 2;            // by both
            default: return src.draw(8);                      // changing over time
        }
    };
    if (kind == 0) {
        res = std::make_unique<vecmem::choice_memory_resource>(
            [&](std::size_t s, std::size_t a) -> vecmem::memory_resource & {
                picked = static_cast<int>(decide(s, a) % N);
                return *ups[picked];
            });
        choice = static_cast<vecmem::choice_memory_resource *>(res.get());
        PBT_TRACE(src, "choice of %d, mode %d", N, mode);
    } else if (kind == 1) {
        std::vector<std::reference_wrapper<vecmem::memory_resource>> v;
        int len = 1 + static_cast<int>(pbt::sized(src, 5, 60));
        if (src.chance(1, 20))
            len = 0;
        for (int i = 0; i < len; ++i) {
            order.push_back(static_cast<int>(src.draw(N)));
            v.emplace_back(*ups[order.back()]);
        }
        res = std::make_unique<vecmem::coalescing_memory_resource>(std::move(v));
        coal = static_cast<vecmem::coalescing_memory_resource *>(res.get());
        PBT_TRACE(src, "coalescing of %d entries over %d upstreams", len, N);
    } else {
        res = std::make_unique<vecmem::conditional_memory_resource>(
            *ups[0], [&](std::size_t s, std::size_t a) {
                accept = decide(s, a) % 2 == 0;
                return accept;
            });
        cond = static_cast<vecmem::conditional_memory_resource *>(res.get());
        PBT_TRACE(src, "conditional, mode %d", mode);
    }
    LiveSet live;
    std::vector<uintptr_t> age;
    std::set<int> owners;
    bool refused = false, out_of_order = false;
    auto clear = [&] {
        for (auto &u : ups)
            u->clear_events();
        picked = -1;
        calls = 0;
    };
    auto release = [&](uintptr_t p) {
        if (age.front() != p && age.back() != p)
            out_of_order = true;
        age.erase(std::find(age.begin(), age.end(), p));
        auto b = live.take(p);
        PBT_TRACE(src, "free(%zu,%zu) of %d", b.size, b.align, b.owner);
        clear();
        res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
        check_sticky();
        for (int i = 0; i < N; ++i) {
            auto &ev = ups[i]->events();
            if (i == b.owner) {
                PBT_CHECK(ev.size() == 1 && !ev[0].alloc && ev[0].ptr == p && ev[0].size == b.size &&
                              ev[0].align == b.align,
                          "a block of upstream %d was not freed there once with its arguments", i);
            } else {
                PBT_CHECK(ev.empty(), "freeing a block of upstream %d called upstream %d", b.owner, i);
            }
        }
    };
    pbt::History hist(src, thorough() ? 60 : 30);
    int nops = hist.length();
    for (int op = 0; op < nops; ++op) {
        unsigned w = hist.next(16, 9, 15);
        if (live.empty() || w < 9) {
            std::size_t size = src.chance(1, 30) ? (std::size_t(2) << 20) : 1 + src.draw(500);
            if (huge && src.chance(1, 3))
                size = huge_size(src);
            std::size_t align = std::size_t(1) << src.draw(8);
            clear();
            void *q = nullptr;
            bool threw = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
            check_sticky();
            // What should have happened
            int winner = -1;
            std::vector<std::size_t> seen(N, 0);
            auto event_ok = [&](int i) {
                auto &ev = ups[i]->events();
                PBT_CHECK(ev.size() > seen[i], "upstream %d was not asked for (%zu, %zu)", i, size, align);
                auto &e = ev[seen[i]++];
                PBT_CHECK(e.alloc && e.size == size && e.align == align,
                          "request (%zu, %zu) reached upstream %d as (%zu, %zu)", size, align, i,
                          e.size, e.align);
                return !e.failed;
            };
            if (kind == 0) {
                PBT_CHECK(calls >= 1 && arg_size == size && arg_align == align,
                          "the decision function was not asked about (%zu, %zu)", size, align);
                if (event_ok(picked))
                    winner = picked;
            } else if (kind == 1) {
                for (int i : order)
                    if (event_ok(i)) {
                        winner = i;
                        break;
                    }
            } else {
                PBT_CHECK(calls >= 1 && arg_size == size && arg_align == align,
                          "the predicate was not asked about (%zu, %zu)", size, align);
                if (accept && event_ok(0))
                    winner = 0;
            }
            for (int i = 0; i < N; ++i)
                PBT_CHECK(ups[i]->events().size() == seen[i],
                          "request (%zu, %zu) was sent to upstream %d as well", size, align, i);
            PBT_TRACE(src, "alloc(%zu,%zu)->%d", size, align, winner);
            PBT_CHECK(threw == (winner < 0),
                      threw ? "request (%zu, %zu) failed although it could be served"
                            : "request (%zu, %zu) did not fail with bad_alloc",
                      size, align);
            if (threw) {
                refused = true;
                continue;
            }
            uintptr_t p = reinterpret_cast<uintptr_t>(opaque(q));
            PBT_CHECK(p == ups[winner]->events().back().ptr, "not the pointer that upstream %d gave",
                      winner);
            live.add(q, size, align, align, winner);
            age.push_back(p);
            owners.insert(winner);
        } else if (w < 15) {
            release(live.nth(src.draw(live.size())));
        } else {
            PBT_TRACE(src, "move");
            clear();
            if (choice) {
                auto m = std::make_unique<vecmem::choice_memory_resource>(std::move(*choice));
                choice = m.get();
                res = std::move(m);
            } else if (coal) {
                auto m = std::make_unique<vecmem::coalescing_memory_resource>(std::move(*coal));
                coal = m.get();
                res = std::move(m);
            } else {
                auto m = std::make_unique<vecmem::conditional_memory_resource>(std::move(*cond));
                cond = m.get();
                res = std::move(m);
            }
            for (auto &u : ups)
                PBT_CHECK(u->events().empty(), "moving called an upstream");
        }
        live.verify_all();
    }
    while (!live.empty())
        release(live.nth(src.draw(live.size())));
    res.reset();
    check_sticky();
    for (auto &u : ups)
        u->expect_balanced("resource destroyed");
    if ((owners.size() > 1 || refused) && out_of_order)
        src.nontrivial();
}
}  // namespace harness
