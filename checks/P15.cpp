// Arena memory resource against a gap model of its upstream pieces.
// check: lib=memory
#include <vecmem/memory/arena_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P15";
const char *const rule =
    "random initial/maximum size, placement of upstream pieces and allocation history; "
    "non-trivial: the arena grew or refused, and space that was freed was handed out again";
const uint64_t quick_cases = 360000;
const uint64_t thorough_cases = 4320000;

constexpr std::size_t G = 256;

void run(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    up.fill_limit = 4096;
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    std::size_t init, maxi;
    switch (src.draw(5)) {
        case 0: init = src.draw(3000); break;
        case 1: init = G * (1 + src.draw(16)); break;
        case 2: init = 20000; break;
        case 3: init = (std::size_t(1) << 18) + src.draw(1025) - 512; break;
        default: init = src.draw(600000); break;
    }
    switch (src.draw(5)) {
        case 0: maxi = init; break;
        case 1: maxi = init + src.draw(5000); break;
        case 2: maxi = init + src.draw(2 << 20); break;
        case 3: maxi = SIZE_MAX - src.draw(2); break;
        default: maxi = std::size_t(64) << 20; break;
    }
    if (huge) {
        if (src.coin())
            init = huge_size(src) / 4;
        maxi = std::max(maxi, init);
        if (src.coin())
            maxi = init + huge_size(src);
    }
    if (src.chance(1, 30) && init > 0)
        maxi = src.draw(init);
    PBT_TRACE(src, "arena(%zu,%zu)", init, maxi);
    bool grew = false, refused = false, reused = false;
    {
        std::unique_ptr<vecmem::arena_memory_resource> res;
        bool threw = throws<std::bad_alloc>(
            [&] { res = std::make_unique<vecmem::arena_memory_resource>(up, init, maxi); });
        if (threw) {
            PBT_CHECK(init > maxi, "construction with %zu, %zu failed", init, maxi);
            up.expect_balanced("construction failed");
            return;
        }
        LiveSet live;
        std::map<uintptr_t, std::size_t> ends;  // rounded ends of the live blocks
        std::set<uintptr_t> freed_addr;
        bool rounding_known = true;
        auto gap = [&](std::size_t need) {
            // is there a free gap of that size inside one piece?
            for (auto &piece : up.live()) {
                uintptr_t at = piece.first, end = piece.first + piece.second.size;
                for (auto it = ends.lower_bound(at); it != ends.end() && it->first < end; ++it) {
                    if (it->first - at >= need)
                        return true;
                    at = it->second;
                }
                if (at <= end && end - at >= need)
                    return true;
            }
            return false;
        };
        pbt::History hist(src, thorough() ? 80 : 40);
        int nops = hist.length();
        for (int op = 0; op < nops; ++op) {
            unsigned w = hist.next(16, 9, 15);
            if (live.empty() || w < 9) {
                std::size_t size, align = std::size_t(1) << src.draw(5);
                std::size_t cur = up.outstanding();
                switch (src.draw(12)) {
                    case 0:
                    case 1:
                    case 2: size = 1 + src.draw(300); break;
                    case 3: size = G * (1 + src.draw(8)) + src.draw(3) - 1; break;
                    case 4: size = 1 + src.draw(20000); break;
                    case 5: size = std::max<std::size_t>(1, init + src.draw(3) - 1); break;
                    case 6: size = init ? 1 + src.draw(init) : 1; break;
                    case 7: size = (std::size_t(1) << 18) + src.draw(1025) - 512; break;
                    case 8: size = 1 + src.draw(700000); break;
                    case 9: {
                        // around what is left
                        std::size_t left = maxi - cur;
                        size = left < (2u << 20) ? std::max<std::size_t>(1, left + src.draw(513) - 256)
                                                 : 1 + src.draw(1000);
                        break;
                    }
                    case 10: size = src.chance(1, 3) ? SIZE_MAX - src.draw(600) : 1 + src.draw(2000); break;
                    default: size = src.chance(1, 8) ? SIZE_MAX / 2 - src.draw(600) : G; break;
                }
                if (huge && src.chance(1, 3))
                    size = huge_size(src);
                if (hist.little())
                    size = 1 + src.draw(1000);
                PBT_TRACE(src, "alloc(%zu)", size);
                std::size_t need = (size + G - 1) / G * G;
                bool overflow = need < size;
                bool must_fit = !overflow && gap(need);
                bool may_grow = !overflow && need <= maxi - cur && need <= up.max_request;
                up.clear_events();
                void *q = nullptr;
                bool threw = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
                check_sticky();
                bool up_fail = false;
                for (auto &e : up.events())
                    up_fail = up_fail || e.failed;
                PBT_CHECK(up.outstanding() <= maxi, "%zu bytes taken from upstream, maximum is %zu",
                          up.outstanding(), maxi);
                if (must_fit) {
                    PBT_CHECK(!threw, "request of %zu failed although there is a free block of "
                              "that size", size);
                    PBT_CHECK(up.events().empty(),
                              "request of %zu went upstream although there is a free block of "
                              "that size", size);
                } else if (may_grow && !up_fail) {
                    PBT_CHECK(!threw, "request of %zu failed with %zu of %zu bytes taken from "
                              "upstream", size, cur, maxi);
                } else {
                    PBT_CHECK(threw, "request of %zu did not fail", size);
                }
                if (threw) {
                    PBT_CHECK(up.outstanding() == cur, "a failed request grew the arena");
                    refused = true;
                } else {
                    uintptr_t p = reinterpret_cast<uintptr_t>(opaque(q));
                    live.add(q, size, FUNDAMENTAL, FUNDAMENTAL);
                    PBT_CHECK(up.contains(q, size), "block %p (size %zu) is not inside an upstream "
                              "piece", q, size);
                    ends[p] = p + need;
                    grew = grew || !up.events().empty();
                    for (uintptr_t a : freed_addr)
                        reused = reused || (a >= p && a < p + need);
                }
                (void)rounding_known;
            } else if (w < 15) {
                uintptr_t p = live.nth(src.draw(live.size()));
                auto b = live.take(p);
                PBT_TRACE(src, "free(%zu)", b.size);
                up.clear_events();
                res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
                ends.erase(p);
                freed_addr.insert(p);
            } else if (src.coin()) {
                PBT_TRACE(src, "move");
                auto m = std::make_unique<vecmem::arena_memory_resource>(std::move(*res));
                res = std::move(m);
            } else {
                // everything back: each piece is one free block again
                PBT_TRACE(src, "free all");
                while (!live.empty()) {
                    uintptr_t p = live.nth(src.draw(live.size()));
                    auto b = live.take(p);
                    res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
                    freed_addr.insert(p);
                }
                ends.clear();
                std::size_t largest = 0;
                for (auto &piece : up.live())
                    largest = std::max(largest, piece.second.size / G * G);
                if (largest > 0) {
                    up.clear_events();
                    void *q = alloc(*res, largest, FUNDAMENTAL);
                    PBT_CHECK(up.events().empty(), "empty arena does not serve its largest piece "
                              "(%zu) without growing", largest);
                    live.add(q, largest, FUNDAMENTAL, FUNDAMENTAL);
                    PBT_CHECK(up.contains(q, largest), "block not inside an upstream piece");
                    auto b = live.take(reinterpret_cast<uintptr_t>(opaque(q)));
                    res->deallocate(q, b.size, b.align);
                }
            }
            check_sticky();
            live.verify_all();
            for (auto &b : live.blocks)
                PBT_CHECK(up.contains(reinterpret_cast<void *>(b.first), b.second.size),
                          "storage of a live block went back to the upstream");
        }
        if (!live.empty())
            src.label("destroyed with live blocks");
    }
    check_sticky();
    up.expect_balanced("arena destroyed");
    if (grew)
        src.label("grew");
    if (refused)
        src.label("refused");
    if (reused)
        src.label("reused");
    if ((grew || refused) && reused)
        src.nontrivial();
}
}  // namespace harness
