// Moves, reassignment and destruction of resources: the upstream is balanced exactly.
// check: lib=memory,utils
// assume: objects that were moved from are only destroyed or assigned to
// assume: before a forwarding resource is overwritten or destroyed its user frees what it allocated through it
#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P23";
const char *const rule =
    "random allocation history over up to four objects of one resource type, each on one of two "
    "upstreams, with move constructions, move assignments onto used objects and destructions in "
    "between; non-trivial: a move or assignment while blocks were live, followed by freeing or "
    "allocating through the new owner";
const uint64_t quick_cases = 1500000;
const uint64_t thorough_cases = 18000000;

namespace {
/// Checks that no block goes back while something handed out from it is live
class Watched : public ModelUpstream {
public:
    using ModelUpstream::ModelUpstream;
    LiveSet *handed = nullptr;

protected:
    void on_deallocate(uintptr_t p, std::size_t size) override {
        if (!handed)
            return;
        auto it = handed->blocks.lower_bound(p);
        if (it != handed->blocks.begin()) {
            auto before = std::prev(it);
            if (before->first + before->second.size > p)
                it = before;
        }
        if (it != handed->blocks.end() && it->first < p + size)
            sticky_fail("a block of %zu bytes went back to %s while the block at %p (size %zu) handed "
                        "out from it was still live",
                        size, name.c_str(), reinterpret_cast<void *>(it->first), it->second.size);
    }
};

struct Obj {
    std::unique_ptr<vecmem::memory_resource> res;
    int up = 0;  // upstream it uses
    int serial = 0;
};

struct Type {
    int kind;
    bool forwards, assignable;
    std::function<std::unique_ptr<vecmem::memory_resource>(vecmem::memory_resource &)> make;
    std::function<std::unique_ptr<vecmem::memory_resource>(vecmem::memory_resource &)> move;
    std::function<void(vecmem::memory_resource &, vecmem::memory_resource &)> assign;
    std::size_t align_limit = 4096;
};

template <typename R, typename F>
Type make_type(int kind, bool forwards, F f) {
    Type t;
    t.kind = kind;
    t.forwards = forwards;
    t.make = f;
    t.move = [](vecmem::memory_resource &r) -> std::unique_ptr<vecmem::memory_resource> {
        return std::make_unique<R>(std::move(static_cast<R &>(r)));
    };
    t.assignable = std::is_move_assignable<R>::value;
    if constexpr (std::is_move_assignable<R>::value)
        t.assign = [](vecmem::memory_resource &a, vecmem::memory_resource &b) {
            static_cast<R &>(a) = std::move(static_cast<R &>(b));
        };
    return t;
}

Type random_type(Src &src) {
    using namespace vecmem;
    using Ptr = std::unique_ptr<memory_resource>;
    switch (src.draw(11)) {
        case 0:
            return make_type<identity_memory_resource>(K_IDENTITY, true, [](memory_resource &u) -> Ptr {
                return std::make_unique<identity_memory_resource>(u);
            });
        case 1:
            return make_type<synchronized_memory_resource>(K_SYNC, true, [](memory_resource &u) -> Ptr {
                return std::make_unique<synchronized_memory_resource>(u);
            });
        case 2:
            return make_type<debug_memory_resource>(K_DEBUG, true, [](memory_resource &u) -> Ptr {
                return std::make_unique<debug_memory_resource>(u);
            });
        case 3:
            return make_type<instrumenting_memory_resource>(
                K_INSTR, true, [](memory_resource &u) -> Ptr {
                    return std::make_unique<instrumenting_memory_resource>(u);
                });
        case 4:
            return make_type<conditional_memory_resource>(K_COND, true, [](memory_resource &u) -> Ptr {
                return std::make_unique<conditional_memory_resource>(
                    u, [](std::size_t s, std::size_t) { return s < 5000; });
            });
        case 5:
            return make_type<choice_memory_resource>(K_CHOICE, true, [](memory_resource &u) -> Ptr {
                return std::make_unique<choice_memory_resource>(
                    [&u](std::size_t, std::size_t) -> memory_resource & { return u; });
            });
        case 6:
            return make_type<coalescing_memory_resource>(K_COALESCE, true, [](memory_resource &u) -> Ptr {
                static terminal_memory_resource term;
                std::vector<std::reference_wrapper<memory_resource>> v{term, u};
                return std::make_unique<coalescing_memory_resource>(std::move(v));
            });
        case 7: {
            std::size_t size = 1 + src.draw(20000);
            return make_type<contiguous_memory_resource>(K_CONTIG, false, [size](memory_resource &u) -> Ptr {
                return std::make_unique<contiguous_memory_resource>(u, size);
            });
        }
        case 8: {
            std::size_t init = src.coin() ? 20000 : 256 * (1 + src.draw(2048));
            auto t = make_type<arena_memory_resource>(K_ARENA, false, [init](memory_resource &u) -> Ptr {
                return std::make_unique<arena_memory_resource>(u, init, std::size_t(1) << 60);
            });
            t.align_limit = FUNDAMENTAL;
            return t;
        }
        case 9: {
            auto t = make_type<binary_page_memory_resource>(K_BINARY, false, [](memory_resource &u) -> Ptr {
                return std::make_unique<binary_page_memory_resource>(u);
            });
            t.align_limit = FUNDAMENTAL;
            return t;
        }
        default: {
            auto o = random_pool_options(src);
            return make_type<pool_memory_resource>(K_POOL, false, [o](memory_resource &u) -> Ptr {
                return std::make_unique<pool_memory_resource>(u, o);
            });
        }
    }
}
}  // namespace

void run(Src &src) {
    LiveSet live;
    std::vector<std::unique_ptr<Watched>> ups;
    for (int i = 0; i < 2; ++i) {
        ups.push_back(std::make_unique<Watched>(&src, i, static_cast<ModelUpstream::Place>(src.draw(3))));
        ups.back()->handed = &live;
        ups.back()->name = i ? "upstream 1" : "upstream 0";
    }
    if (src.chance(1, 4))
        ups[1]->share_memory_with(*ups[0]);
    bool huge = src.chance(1, 20) && ups[0]->allow_huge() && ups[1]->allow_huge();
    if (huge)
        src.label("huge requests");
    Type t = random_type(src);
    src.label(kind_name(t.kind));
    PBT_TRACE(src, "%s", kind_name(t.kind));
    std::vector<Obj> objs;
    std::vector<std::unique_ptr<vecmem::memory_resource>> husks;  // moved from
    int serial = 0;
    int moved_live = 0;
    bool interesting = false;
    std::set<int> took_over;  // serials that took something over while live
    auto live_of = [&](int serial) {
        std::vector<uintptr_t> v;
        for (auto &b : live.blocks)
            if (b.second.owner == serial)
                v.push_back(b.first);
        return v;
    };
    auto release = [&](uintptr_t p) {
        auto b = live.take(p);
        for (auto &o : objs)
            if (o.serial == b.owner) {
                PBT_TRACE(src, "free(%zu)@%d", b.size, b.owner);
                ups[0]->clear_events();
                ups[1]->clear_events();
                o.res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
                check_sticky();
                if (t.forwards)
                    PBT_CHECK(ups[o.up]->events().size() == 1 && ups[1 - o.up]->events().empty(),
                              "freeing a block did not give it back to the upstream at once");
                if (took_over.count(b.owner))
                    interesting = true;
            }
    };
    // What an object still has handed out is gone (caching) or freed by the user (forwarding)
    auto drop_blocks = [&](int serial) {
        for (uintptr_t p : live_of(serial)) {
            if (t.forwards)
                release(p);
            else
                live.take(p);
        }
    };
    auto check = [&] {
        check_sticky();
        live.verify_all();
        for (auto &b : live.blocks) {
            bool in = ups[0]->covers(reinterpret_cast<void *>(b.first), b.second.size) ||
                      ups[1]->covers(reinterpret_cast<void *>(b.first), b.second.size);
            PBT_CHECK(in, "storage of a live block went back to the upstream");
        }
        if (t.forwards) {
            std::size_t n = ups[0]->live().size() + ups[1]->live().size();
            PBT_CHECK(n == live.size(), "%zu live blocks, but %zu outstanding upstream", live.size(), n);
        }
        for (int u = 0; u < 2; ++u) {
            bool used = false;
            for (auto &o : objs)
                used = used || o.up == u;
            if (!used && !t.forwards)
                PBT_CHECK(ups[u]->live().empty(),
                          "%zu block(s) of %s are still held, but no resource is left that uses it",
                          ups[u]->live().size(), ups[u]->name.c_str());
        }
    };
    pbt::History hist(src, thorough() ? 51 : 26);
    int nops = hist.length();
    for (int i = 0; i < nops; ++i) {
        unsigned w = hist.next(20, 8, 13);
        if (objs.empty() || (w == 0 && objs.size() < 4)) {
            Obj o;
            o.up = src.draw(2);
            o.serial = ++serial;
            PBT_TRACE(src, "create %d on %d", o.serial, o.up);
            try {
                o.res = t.make(*ups[o.up]);
            } catch (const std::bad_alloc &) {
                throw Discard();
            }
            objs.push_back(std::move(o));
        } else if (w < 8) {
            auto &o = objs[src.draw(objs.size())];
            std::size_t size = random_size(src, 1 << 16), align = std::min(random_align(src), t.align_limit);
            if (huge && src.chance(1, 3))
                size = huge_size(src) / 16;
            if (hist.little())
                size = 1 + src.draw(300);
            PBT_TRACE(src, "alloc(%zu,%zu)@%d", size, align, o.serial);
            void *p = nullptr;
            if (throws<std::bad_alloc>([&] { p = alloc(*o.res, size, align); })) {
                PBT_CHECK(t.kind == K_CONTIG || t.kind == K_COND, "allocation of %zu bytes failed", size);
                continue;
            }
            live.add(p, size, align, align, o.serial);
            PBT_CHECK(ups[o.up]->covers(p, size), "block is not from the upstream of the resource");
            if (took_over.count(o.serial))
                interesting = true;
        } else if (w < 13) {
            if (!live.empty())
                release(live.nth(src.draw(live.size())));
        } else if (w < 16) {
            auto &o = objs[src.draw(objs.size())];
            PBT_TRACE(src, "move construct from %d (%zu live)", o.serial, live_of(o.serial).size());
            auto n = t.move(*o.res);
            husks.push_back(std::move(o.res));
            o.res = std::move(n);
            if (!live_of(o.serial).empty())
                took_over.insert(o.serial);
            ++moved_live;
        } else if (w < 18) {
            if (!t.assignable)
                continue;
            // move assign object b onto a used or moved-from object
            if (!husks.empty() && src.coin()) {
                auto &o = objs[src.draw(objs.size())];
                std::size_t h = src.draw(husks.size());
                PBT_TRACE(src, "move assign %d onto a moved-from object", o.serial);
                t.assign(*husks[h], *o.res);
                std::swap(husks[h], o.res);
                if (!live_of(o.serial).empty())
                    took_over.insert(o.serial);
            } else if (objs.size() >= 2) {
                std::size_t a = src.draw(objs.size()), b = src.draw(objs.size() - 1);
                if (b >= a)
                    ++b;
                drop_blocks(objs[a].serial);
                PBT_TRACE(src, "move assign %d onto %d (%zu live)", objs[b].serial, objs[a].serial,
                          live_of(objs[b].serial).size());
                t.assign(*objs[a].res, *objs[b].res);
                husks.push_back(std::move(objs[b].res));
                objs[b].res = std::move(objs[a].res);
                if (!live_of(objs[b].serial).empty())
                    took_over.insert(objs[b].serial);
                objs.erase(objs.begin() + a);
            }
        } else if (w < 19) {
            if (!husks.empty()) {
                PBT_TRACE(src, "destroy a moved-from object");
                husks.erase(husks.begin() + src.draw(husks.size()));
            }
        } else {
            std::size_t k = src.draw(objs.size());
            drop_blocks(objs[k].serial);
            PBT_TRACE(src, "destroy %d", objs[k].serial);
            objs.erase(objs.begin() + k);
        }
        check();
    }
    if (src.coin())
        husks.clear();
    while (!objs.empty()) {
        drop_blocks(objs.back().serial);
        objs.pop_back();
        check();
    }
    husks.clear();
    check_sticky();
    for (auto &u : ups)
        u->expect_balanced("all resources destroyed");
    if (interesting)
        src.nontrivial();
}
}  // namespace harness
