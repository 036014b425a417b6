// Contiguous memory resource against a bump-pointer model.
// check: lib=memory
#include <vecmem/memory/contiguous_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P18";
const char *const rule =
    "random block size and a history of allocations/deallocations/moves; non-trivial: at least two "
    "blocks were handed out and one request did not fit or a block was freed";
const uint64_t quick_cases = 750000;
const uint64_t thorough_cases = 9000000;

void run(Src &src) {
    ModelUpstream up(&src, 0, ModelUpstream::Place::Mixed);
    std::size_t total;
    switch (src.draw(4)) {
        case 0: total = src.draw(64); break;
        case 1: total = src.draw(4096); break;
        case 2: total = std::size_t(1) << src.draw(17); break;
        default: total = src.draw(100000); break;
    }
    pbt::History hist(src, 24);
    if (hist.is_long())
        total = src.draw(100000);
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    if (huge)
        total = huge_size(src);
    PBT_TRACE(src, "contiguous(%zu)", total);
    bool nofit = false, freed = false;
    unsigned given = 0;
    {
        auto res = std::make_unique<vecmem::contiguous_memory_resource>(up, total);
        PBT_CHECK(up.alloc_calls() == 1, "construction made %lu upstream allocations",
                  up.alloc_calls());
        PBT_CHECK(up.events()[0].size == total, "construction asked for %zu bytes instead of %zu",
                  up.events()[0].size, total);
        uintptr_t base = up.events()[0].ptr, next = base, end = base + total;
        LiveSet live;
        int nops = hist.length();
        for (int op = 0; op < nops; ++op) {
            switch (src.draw(8)) {
                default: {
                    std::size_t align = std::size_t(1) << src.draw(src.chance(1, 8) ? 13 : 7);
                    // model
                    uintptr_t p = (next + align - 1) & ~(align - 1);
                    std::size_t room = p <= end ? end - p : 0, size;
                    bool padfits = p <= end;
                    switch (hist.little() ? 23 : src.draw(24)) {
                        case 0: size = room; break;
                        case 1: size = room + 1; break;
                        case 2: size = room > 0 ? room - 1 : 1; break;
                        case 3: size = SIZE_MAX - src.draw(300); break;
                        case 4: size = SIZE_MAX / 2 + src.draw(3); break;
                        case 5: size = room ? src.draw(room) + 1 : 1; break;
                        case 6: size = end - next; break;
                        default: size = src.draw(200); break;
                    }
                    if (huge && src.chance(1, 3))
                        size = huge_size(src) / 8;
                    if (src.chance(1, 40)) {
                        PBT_TRACE(src, "allocate(0)");
                        PBT_CHECK(alloc(*res, 0, align) == nullptr, "zero-size request not null");
                        break;
                    }
                    if (size == 0)
                        size = 1;
                    bool fits = padfits && size <= room;
                    PBT_TRACE(src, "allocate(%zu,%zu)%s", size, align, fits ? "" : " (no room)");
                    void *q = nullptr;
                    bool threw = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
                    if (!fits) {
                        PBT_CHECK(threw, "a request of %zu (align %zu) with %zu bytes left did not "
                                  "fail with bad_alloc", size, align, end - next);
                        nofit = true;
                        break;
                    }
                    PBT_CHECK(!threw, "a request of %zu (align %zu) failed although %zu bytes were "
                              "left", size, align, end - next);
                    live.add(q, size, align, align);
                    PBT_CHECK(reinterpret_cast<uintptr_t>(q) == p,
                              "block at offset %ld instead of %zu (size %zu align %zu)",
                              (long)(reinterpret_cast<uintptr_t>(q) - base), p - base, size, align);
                    PBT_CHECK(up.contains(q, size), "block not inside the upstream block");
                    next = p + size;
                    ++given;
                    break;
                }
                case 6: {
                    if (live.empty())
                        break;
                    uintptr_t p = live.nth(src.draw(live.size()));
                    auto b = live.take(p);
                    PBT_TRACE(src, "deallocate(+%zu)", p - base);
                    res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
                    freed = true;
                    break;
                }
                case 7: {
                    PBT_TRACE(src, "move");
                    auto m = std::make_unique<vecmem::contiguous_memory_resource>(std::move(*res));
                    res = std::move(m);
                    break;
                }
            }
            live.verify_all();
            PBT_CHECK(up.alloc_calls() == 1 && up.dealloc_calls() == 0,
                      "upstream was called between construction and destruction");
            check_sticky();
        }
    }
    PBT_CHECK(up.dealloc_calls() == (total ? 1 : up.dealloc_calls()), "block returned %lu times",
              up.dealloc_calls());
    up.expect_balanced("contiguous resource destroyed");
    src.label(nofit ? "request without room" : "all fit");
    if (given >= 2 && (nofit || freed))
        src.nontrivial();
}
}  // namespace harness
