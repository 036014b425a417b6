// Binary page memory resource against a buddy-window model of its upstream pieces.
// check: lib=memory
#include <vecmem/memory/binary_page_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P16";
const char *const rule =
    "random allocation history with sizes around powers of two and upstream failures; non-trivial: "
    "pages were split, and a page that was merged from freed ones was handed out again";
const uint64_t quick_cases = 80000;
const uint64_t thorough_cases = 960000;

static std::size_t log2up(std::size_t s) {
    std::size_t g = 0;
    while (g < 63 && (std::size_t(1) << g) < s)
        ++g;
    return g;
}

void run(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    up.fill_limit = 4096;
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    if (src.chance(1, 4))
        for (int i = 0; i < 3; ++i)
            up.fail_calls.insert(src.draw(6));
    bool split = false, merged = false, refused = false;
    {
        auto res = std::make_unique<vecmem::binary_page_memory_resource>(up);
        PBT_CHECK(up.alloc_calls() == 0, "construction allocated");
        LiveSet live;
        std::map<uintptr_t, uintptr_t> ext;   // page extents of live blocks
        std::map<uintptr_t, std::size_t> was;  // freed page -> size of page
        auto window = [&](std::size_t g) {
            // an aligned free window of 2^g bytes in a piece whose pages can be that small?
            for (auto &piece : up.live()) {
                std::size_t s = log2up(piece.second.size);
                if (g > s || g + 8 < s)
                    continue;
                std::size_t w = std::size_t(1) << g;
                uintptr_t base = piece.first, end = base + piece.second.size;
                uintptr_t at = base;
                while (at < end) {
                    // first live page that overlaps [at, at+w)
                    auto it = ext.upper_bound(at);
                    uintptr_t clash = 0;
                    if (it != ext.begin()) {
                        auto pr = std::prev(it);
                        if (pr->second > at)
                            clash = pr->second;
                    }
                    if (!clash && it != ext.end() && it->first < at + w)
                        clash = it->second;
                    if (!clash)
                        return true;
                    at = base + ((clash - base) + w - 1) / w * w;
                }
            }
            return false;
        };
        auto release = [&](uintptr_t p) {
            auto b = live.take(p);
            PBT_TRACE(src, "free(%zu)", b.size);
            uint64_t calls = up.alloc_calls() + up.dealloc_calls();
            res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
            (void)calls;
            was[p] = std::max(was[p], ext[p] - p);
            ext.erase(p);
        };
        auto get = [&](std::size_t size, std::size_t align) {
            PBT_TRACE(src, "alloc(%zu)", size);
            bool possible = size <= (std::size_t(1) << 63);
            std::size_t g = std::max<std::size_t>(8, log2up(size));
            bool must = possible && window(g);
            std::size_t cur = up.outstanding();
            up.clear_events();
            void *q = nullptr;
            bool threw = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
            check_sticky();
            bool up_fail = false;
            for (auto &e : up.events()) {
                up_fail = up_fail || e.failed;
                PBT_CHECK(e.alloc && (e.size & (e.size - 1)) == 0 && e.size > 0,
                          "upstream was asked for %zu bytes, which is no power of two", e.size);
            }
            PBT_CHECK(up.events().size() <= 1, "%zu upstream calls for one request",
                      up.events().size());
            if (must) {
                PBT_CHECK(!threw, "request of %zu failed although a free page exists", size);
                PBT_CHECK(up.events().empty(),
                          "request of %zu went upstream although a free page exists", size);
            } else if (!threw) {
                PBT_CHECK(possible, "request of %zu succeeded", size);
                PBT_CHECK(!up.events().empty() && up.events()[0].size >= size,
                          "request of %zu was not backed by upstream storage", size);
            } else {
                PBT_CHECK(!possible || up_fail, "request of %zu failed without upstream failing",
                          size);
                PBT_CHECK(up.outstanding() == cur, "a failed request grew the resource");
                refused = true;
            }
            if (threw)
                return;
            uintptr_t p = reinterpret_cast<uintptr_t>(opaque(q));
            live.add(q, size, FUNDAMENTAL, FUNDAMENTAL);
            PBT_CHECK(up.contains(q, std::size_t(1) << g), "page of block %p (size %zu) is not inside an "
                      "upstream piece", q, size);
            ext[p] = p + (std::size_t(1) << g);
            for (auto it = ext.begin(); it != ext.end(); ++it)
                if (std::next(it) != ext.end())
                    PBT_CHECK(it->second <= std::next(it)->first, "pages overlap");
            split = split || !up.events().empty();
            for (auto &w : was)
                if (w.first >= p && w.first < ext[p] && w.second < ext[p] - p)
                    merged = true;
        };
        pbt::History hist(src, thorough() ? 80 : 40);
        int nops = hist.length();
        for (int op = 0; op < nops; ++op) {
            unsigned w = hist.next(20, 11, 18);
            if (live.empty() || w < 11) {
                std::size_t size, align = std::size_t(1) << src.draw(5);
                switch (src.draw(10)) {
                    case 0:
                    case 1: size = 1 + src.draw(300); break;
                    case 2:
                    case 3: size = (std::size_t(1) << (8 + src.draw(8))) + src.draw(3) - 1; break;
                    case 4: size = (std::size_t(1) << (16 + src.draw(5))) + src.draw(3) - 1; break;
                    case 5: size = 1 + src.draw(70000); break;
                    case 6: size = (std::size_t(1) << (19 + src.draw(4))) + src.draw(3) - 1; break;
                    case 7: size = src.chance(1, 4) ? SIZE_MAX - src.draw(100) : 1 + src.draw(5000); break;
                    case 8: size = src.chance(1, 4) ? (std::size_t(1) << 63) + src.draw(3) - 1
                                                    : 1 + src.draw(2000); break;
                    default: size = 1 + src.draw(1024); break;
                }
                if (huge && src.chance(1, 3))
                    size = huge_size(src);
                if (hist.little())
                    size = 1 + src.draw(src.coin() ? 300 : 70000);
                get(size, align);
            } else if (w < 18) {
                release(live.nth(src.draw(live.size())));
            } else if (w == 18) {
                PBT_TRACE(src, "move");
                auto m = std::make_unique<vecmem::binary_page_memory_resource>(std::move(*res));
                res = std::move(m);
            } else {
                // free everything: every piece must be whole again
                PBT_TRACE(src, "free all");
                while (!live.empty())
                    release(live.nth(src.draw(live.size())));
                std::vector<std::size_t> sizes;
                for (auto &piece : up.live())
                    sizes.push_back(piece.second.size);
                std::sort(sizes.rbegin(), sizes.rend());
                for (std::size_t s : sizes)
                    get(s, FUNDAMENTAL);
                while (!live.empty())
                    release(live.nth(src.draw(live.size())));
            }
            check_sticky();
            live.verify_all();
            for (auto &b : live.blocks)
                PBT_CHECK(up.contains(reinterpret_cast<void *>(b.first), b.second.size),
                          "storage of a live block went back to the upstream");
        }
        if (!live.empty())
            src.label("destroyed with live blocks");
    }
    check_sticky();
    up.expect_balanced("binary page resource destroyed");
    if (refused)
        src.label("refused");
    if (merged)
        src.label("merged page reused");
    if (split && merged)
        src.nontrivial();
}
}  // namespace harness
