// Random graphs of memory resources: every block is valid, exclusive and keeps its contents.
// check: lib=memory,utils
#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P14";
const char *const rule =
    "random graph of 0..5 resources over a model upstream and a random allocation history through "
    "random nodes of it; non-trivial: at least two resources, three allocations and a deallocation "
    "followed by an allocation";
const uint64_t quick_cases = 480000;
const uint64_t thorough_cases = 5760000;

void run(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    bool reuse_after_free = false;
    int n_alloc = 0;
    int depth = src.draw(6);
    {
        Graph g(src, up, depth);
        for (auto &n : g.nodes)
            src.label(kind_name(n.kind));
        PBT_TRACE(src, "%s", g.describe().c_str());
        LiveSet live;
        pbt::History hist(src, thorough() ? 60 : 30);
        int nops = hist.length();
        bool freed = false;
        auto release = [&](uintptr_t p) {
            auto b = live.take(p);
            PBT_TRACE(src, "free(%zu)@%d", b.size, b.owner);
            g.nodes[b.owner].ptr->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
            freed = true;
        };
        for (int i = 0; i < nops; ++i) {
            if (live.empty() || hist.next(5, 3, 5) < 3) {
                int k = src.chance(1, 4) ? static_cast<int>(src.draw(g.nodes.size()))
                                         : static_cast<int>(g.nodes.size()) - 1;
                std::size_t size = huge && src.chance(1, 3) ? huge_size(src) : random_size(src),
                            align = random_align(src);
                if (hist.little())
                    size = 1 + src.draw(300);
                // no more than what the resource promises
                align = g.promise(k, align);
                PBT_TRACE(src, "alloc(%zu,%zu)@%d", size, align, k);
                up.clear_events();
                void *p = nullptr;
                bool threw =
                    throws<std::bad_alloc>([&] { p = alloc(*g.nodes[k].ptr, size, align); });
                check_sticky();
                if (threw) {
                    bool up_failed = false;
                    for (auto &e : up.events())
                        up_failed = up_failed || e.failed;
                    PBT_CHECK(up_failed || g.can_fail(k),
                              "allocate(%zu, %zu) from %s failed although the upstream did not",
                              size, align, g.nodes[k].text.c_str());
                    src.label("refused");
                    continue;
                }
                live.add(p, size, align, align, k);
                PBT_CHECK(up.covers(p, size),
                          "allocate(%zu, %zu) from %s returned %p, not inside storage of the "
                          "upstream",
                          size, align, g.nodes[k].text.c_str(), p);
                ++n_alloc;
                reuse_after_free = reuse_after_free || freed;
            } else {
                release(live.nth(src.draw(live.size())));
            }
            check_sticky();
            live.verify_all();
            for (auto &b : live.blocks)
                PBT_CHECK(up.covers(reinterpret_cast<void *>(b.first), b.second.size),
                          "storage of a live block went back to the upstream");
        }
        while (!live.empty())
            release(live.nth(src.draw(live.size())));
        check_sticky();
    }
    check_sticky();
    up.expect_balanced("all resources destroyed");
    if (depth >= 2 && n_alloc >= 3 && reuse_after_free)
        src.nontrivial();
}
}  // namespace harness
