// Debug memory resource: transparent for correct use, logic_error for every kind of misuse.
// check: lib=memory
#include <vecmem/memory/debug_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P20";
const char *const rule =
    "random correct histories with misuses (unknown, double, interior free; wrong size/alignment; "
    "upstream handing out overlapping blocks) injected at random points; non-trivial: at least one "
    "misuse with two or more live blocks around";
const uint64_t quick_cases = 500000;
const uint64_t thorough_cases = 6000000;

/// Upstream that can be told to hand out a specific address once
class Faulty : public ModelUpstream {
public:
    using ModelUpstream::ModelUpstream;
    uintptr_t next = 0;
    std::vector<std::pair<uintptr_t, std::size_t>> returned;

protected:
    void *do_allocate(std::size_t s, std::size_t a) override {
        if (next) {
            uintptr_t p = next;
            next = 0;
            return reinterpret_cast<void *>(p);
        }
        return ModelUpstream::do_allocate(s, a);
    }
};

void run(Src &src) {
    Faulty up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    if (src.chance(1, 4))
        for (int k = 0; k < 3; ++k)
            up.fail_calls.insert(src.draw(10));
    auto res = std::make_unique<vecmem::debug_memory_resource>(up);
    LiveSet live;
    std::vector<std::pair<uintptr_t, LiveSet::Block>> dead;
    bool interesting = false;
    auto expect_error = [&](void *p, std::size_t s, std::size_t a, const char *what) {
        PBT_TRACE(src, "%s", what);
        up.clear_events();
        bool threw = throws<std::logic_error>([&] { res->deallocate(p, s, a); });
        check_sticky();
        PBT_CHECK(threw, "%s was not reported", what);
        PBT_CHECK(up.events().empty(), "%s was passed on to the upstream", what);
        if (live.size() >= 2)
            interesting = true;
        src.label(what);
    };
    auto release = [&](uintptr_t p) {
        auto b = live.take(p);
        PBT_TRACE(src, "free(%zu,%zu)", b.size, b.align);
        up.clear_events();
        bool threw = throws<std::logic_error>(
            [&] { res->deallocate(reinterpret_cast<void *>(p), b.size, b.align); });
        check_sticky();
        PBT_CHECK(!threw, "a correct deallocation (size %zu, align %zu) was refused", b.size, b.align);
        PBT_CHECK(up.events().size() == 1 && !up.events()[0].alloc,
                  "a deallocation did not reach the upstream exactly once");
        dead.push_back({p, b});
    };
    pbt::History hist(src, thorough() ? 60 : 30);
    int nops = hist.length();
    for (int op = 0; op < nops; ++op) {
        unsigned w = hist.next(24, 9, 15);
        if (live.empty() || w < 9) {
            std::size_t size = 1 + src.draw(300), align = std::size_t(1) << src.draw(8);
            if (huge && src.chance(1, 3))
                size = huge_size(src);
            PBT_TRACE(src, "alloc(%zu,%zu)", size, align);
            up.clear_events();
            void *q = nullptr;
            bool threw = throws<std::bad_alloc>([&] {
                try {
                    q = alloc(*res, size, align);
                } catch (const std::logic_error &e) {
                    fail("a correct allocation was refused: %s", e.what());
                }
            });
            check_sticky();
            PBT_CHECK(up.events().size() == 1 && up.events()[0].alloc && up.events()[0].size == size &&
                          up.events()[0].align == align,
                      "an allocation was not passed on unchanged");
            PBT_CHECK(threw == up.events()[0].failed, "upstream failure and result disagree");
            if (threw)
                continue;
            uintptr_t p = reinterpret_cast<uintptr_t>(opaque(q));
            PBT_CHECK(p == up.events()[0].ptr, "not the pointer that upstream gave");
            live.add(q, size, align, align);
            for (std::size_t i = 0; i < dead.size();) {
                if (dead[i].first == p)
                    dead.erase(dead.begin() + i);
                else
                    ++i;
            }
        } else if (w < 15) {
            release(live.nth(src.draw(live.size())));
        } else if (w < 16) {
            PBT_TRACE(src, "move");
            auto m = std::make_unique<vecmem::debug_memory_resource>(std::move(*res));
            res = std::move(m);
        } else {
            uintptr_t p = live.nth(src.draw(live.size()));
            auto b = live.blocks[p];
            switch (src.draw(6)) {
                case 0:
                    if (!dead.empty()) {
                        auto &d = dead[src.draw(dead.size())];
                        expect_error(reinterpret_cast<void *>(d.first), d.second.size, d.second.align,
                                     "double free");
                    }
                    break;
                case 1: {
                    std::size_t off = 1 + src.draw(b.size);
                    if (live.blocks.count(p + off))
                        break;
                    expect_error(reinterpret_cast<void *>(p + off), b.size, b.align, "interior free");
                    break;
                }
                case 2: {
                    uintptr_t x = src.coin() ? p - 1 - src.draw(64) : 1 + src.draw(1 << 20);
                    if (live.blocks.count(x))
                        break;
                    expect_error(reinterpret_cast<void *>(x), b.size, b.align, "free of unknown pointer");
                    break;
                }
                case 3: {
                    std::size_t s = src.coin() ? b.size + 1 + src.draw(5) : src.draw(b.size);
                    if (src.chance(1, 4))
                        s = b.size + (std::size_t(1) << (8 + src.draw(56)));
                    expect_error(reinterpret_cast<void *>(p), s, b.align, "free with wrong size");
                    break;
                }
                case 4: {
                    std::size_t a = std::size_t(1) << src.draw(12);
                    if (a == b.align)
                        a <<= 1;
                    expect_error(reinterpret_cast<void *>(p), b.size, a, "free with wrong alignment");
                    break;
                }
                default: {
                    // upstream hands out a block that overlaps [p, p+b.size)
                    std::size_t size = 1 + src.draw(2 * b.size + 2);
                    if (src.chance(1, 3))
                        size = 1;
                    // start in (p - size, p + b.size)
                    uintptr_t x = p - size + 1 + src.draw(size + b.size - 1);
                    if (src.chance(1, 4))
                        x = p + b.size - 1;
                    if (src.chance(1, 4))
                        x = p - size + 1;
                    PBT_TRACE(src, "overlapping block: offset %ld size %zu", (long)(x - p), size);
                    up.next = x;
                    bool threw = throws<std::logic_error>([&] { alloc(*res, size, 1); });
                    PBT_CHECK(threw,
                              "upstream gave a block of %zu bytes at offset %ld of a live block of "
                              "%zu bytes, and that was not reported",
                              size, (long)(x - p), b.size);
                    src.label("overlap");
                    if (live.size() >= 2)
                        interesting = true;
                    break;
                }
            }
        }
        live.verify_all();
    }
    while (!live.empty())
        release(live.nth(src.draw(live.size())));
    check_sticky();
    res.reset();
    up.expect_balanced("everything freed");
    if (interesting)
        src.nontrivial();
}
}  // namespace harness
