// Equality of resources is sound; contracts of the host, identity and terminal resources and of zero-size requests.
// check: lib=memory,utils
// assume: symmetry is only required where no synchronized resource is nested below (it counts as equal to its upstream, but not vice versa)
// assume: the C library's allocator stands behind the host resource; sizes above 4 MiB are not written to
#include <vecmem/memory/host_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P28";
const char *const rule =
    "half of the cases: random graph of resources plus extra host, terminal, identity and "
    "synchronized ones, all pairs compared, blocks freed through equal partners, zero-size and null "
    "calls; other half: host resource histories with sizes up to the top of the size range and "
    "alignments up to 2^20; non-trivial: a block freed through a different but equal resource, or a "
    "host history with a refused request or an over-aligned block";
const uint64_t quick_cases = 800000;
const uint64_t thorough_cases = 9600000;

namespace {
void host(Src &src) {
    vecmem::host_memory_resource a, b;
    vecmem::memory_resource *res[2] = {&a, &b};
    PBT_CHECK(a.is_equal(b) && b.is_equal(a), "host resources are not equal");
    LiveSet live;
    bool interesting = false;
    auto release = [&](uintptr_t p) {
        auto blk = live.take(p);
        res[src.draw(2)]->deallocate(reinterpret_cast<void *>(p), blk.size, blk.align);
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 20, 600, 150));
    for (int i = 0; i < nops; ++i) {
        unsigned w = src.draw(8);
        if (!live.empty() && w < 2) {
            release(live.nth(src.draw(live.size())));
            continue;
        }
        std::size_t align = std::size_t(1) << src.draw(src.chance(1, 8) ? 21 : 13);
        std::size_t size;
        if (w == 2) {
            // near the top of the size range
            switch (src.draw(3)) {
                case 0:
                    size = SIZE_MAX - src.draw(2 * align + 4);
                    break;
                case 1:
                    size = (SIZE_MAX >> src.draw(8)) - src.draw(4096);
                    break;
                default:
                    size = (std::size_t(1) << (48 + src.draw(16))) + src.draw(4096);
            }
        } else if (w == 3) {
            size = align * (1 + src.draw(3)) + src.draw(3) - 1;
            size = std::min<std::size_t>(size ? size : 1, std::size_t(4) << 20);
        } else {
            size = random_size(src, 1 << 16);
        }
        PBT_TRACE(src, "host alloc(%zu,%zu)", size, align);
        void *p = nullptr;
        bool threw = throws<std::bad_alloc>([&] { p = alloc(*res[src.draw(2)], size, align); });
        if (threw) {
            PBT_CHECK(size > (std::size_t(1) << 40),
                      "host resource refused %zu bytes at alignment %zu", size, align);
            src.label("host refused");
            interesting = true;
            continue;
        }
        PBT_CHECK(size < (std::size_t(1) << 47),
                  "host resource claims to provide %zu bytes at alignment %zu", size, align);
        if (align > FUNDAMENTAL)
            interesting = true;
        live.add(p, size, align, align);
        live.verify_all();
    }
    while (!live.empty())
        release(live.nth(src.draw(live.size())));
    PBT_CHECK(alloc(a, 0, std::size_t(1) << src.draw(12)) == nullptr, "host: allocate(0) is not null");
    a.deallocate(nullptr, src.draw(100), 8);
    if (interesting)
        src.nontrivial();
}

bool nested(const Graph &g, int k) {
    while (g.nodes[k].kind == K_IDENTITY || g.nodes[k].kind == K_SYNC) {
        k = g.nodes[k].up[0];
        if (g.nodes[k].kind == K_SYNC)
            return true;
    }
    return false;
}

void equality(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    {
        Graph g(src, up, src.draw(7));
        // some more on top
        std::vector<std::unique_ptr<vecmem::memory_resource>> extra;
        struct R {
            vecmem::memory_resource *r;
            int node;  // of the graph that serves it in the end
            bool terminal, host;
            std::string text;
            bool direct;  // forwards unchanged to the model upstream
            // a synchronized resource is below it in the chain that comparison looks through: these
            // count as equal to their upstream but not the other way around
            bool nested_sync = false;
        };
        std::vector<R> all;
        for (std::size_t i = 0; i < g.nodes.size(); ++i)
            all.push_back({g.nodes[i].ptr, (int)i, false, false, g.nodes[i].text,
                           g.nodes[i].kind == K_IDENTITY && g.nodes[i].up[0] == 0, nested(g, i)});
        int n = src.draw(6);
        for (int i = 0; i < n; ++i) {
            R r{nullptr, -1, false, false, "", false, false};
            auto below_sync = [&](const R &u) {
                return u.nested_sync ||
                       dynamic_cast<vecmem::synchronized_memory_resource *>(u.r) != nullptr;
            };
            switch (src.draw(5)) {
                case 0:
                    extra.push_back(std::make_unique<vecmem::host_memory_resource>());
                    r.host = true;
                    r.text = "host";
                    break;
                case 1:
                    extra.push_back(std::make_unique<vecmem::terminal_memory_resource>());
                    r.terminal = true;
                    r.text = "terminal";
                    break;
                case 2: {
                    R u = all[src.draw(all.size())];
                    r = u;
                    extra.push_back(std::make_unique<vecmem::identity_memory_resource>(*u.r));
                    r.text = "identity<-" + u.text;
                    r.direct = u.r == &up;
                    r.nested_sync = below_sync(u);
                    break;
                }
                case 3: {
                    R u = all[src.draw(all.size())];
                    r = u;
                    auto s = std::make_unique<vecmem::synchronized_memory_resource>(*u.r);
                    PBT_CHECK(s->is_equal(*u.r), "synchronized resource is not equal to its upstream");
                    // a copy or the moved successor count as well
                    if (src.coin()) {
                        auto c = std::make_unique<vecmem::synchronized_memory_resource>(*s);
                        PBT_CHECK(c->is_equal(*s) && s->is_equal(*c), "a copy is not equal");
                        s = std::move(c);
                    }
                    extra.push_back(std::move(s));
                    r.text = "synchronized<-" + u.text;
                    r.direct = false;
                    r.nested_sync = below_sync(u);
                    break;
                }
                default: {
                    R u = all[src.draw(all.size())];
                    if (u.terminal || u.host)
                        u = all[0];
                    r = u;
                    extra.push_back(std::make_unique<vecmem::instrumenting_memory_resource>(*u.r));
                    r.text = "instrumenting<-" + u.text;
                    r.direct = false;
                    r.nested_sync = false;
                }
            }
            r.r = extra.back().get();
            all.push_back(r);
        }
        if (src.tracing())
            for (auto &r : all)
                src.trace("%s", r.text.c_str());
        bool interesting = false;
        auto test_pair = [&](const R &x, const R &y) {
            bool eq = x.r->is_equal(*y.r);
            PBT_CHECK((*x.r == *y.r) == (eq || x.r == y.r), "operator== and is_equal disagree");
            if (x.r == y.r)
                PBT_CHECK(eq, "%s is not equal to itself", x.text.c_str());
            if (typeid(*x.r) == typeid(*y.r) && !x.nested_sync && !y.nested_sync)
                PBT_CHECK(eq == y.r->is_equal(*x.r), "comparison of two resources of one type is asymmetric");
            if (!eq)
                return;
            if (x.r != y.r && !x.terminal)
                src.label("equal but different objects");
            std::size_t size = random_size(src, 1 << 15), align = random_align(src);
            if (x.node >= 0)
                align = g.promise(x.node, align);
            PBT_TRACE(src, "alloc(%zu,%zu) from %s, free through %s", size, align, x.text.c_str(),
                      y.text.c_str());
            std::size_t before = up.outstanding();
            void *p = nullptr;
            if (throws<std::bad_alloc>([&] { p = alloc(*x.r, size, align); }))
                return;
            std::size_t between = up.outstanding();
            PBT_CHECK(!x.terminal, "the terminal resource gave memory");
            LiveSet l;
            l.add(p, size, align, align);
            l.verify_all();
            try {
                y.r->deallocate(p, size, align);
            } catch (const std::exception &e) {
                fail("%s compares equal to %s but refuses to free its block: %s", x.text.c_str(),
                     y.text.c_str(), e.what());
            }
            check_sticky();
            PBT_CHECK(up.outstanding() <= between, "freeing took storage");
            if (x.direct && y.direct)
                PBT_CHECK(up.outstanding() == before, "freed block did not go back");
            if (x.r != y.r)
                interesting = true;
        };
        if (all.size() <= 5) {
            for (auto &x : all)
                for (auto &y : all)
                    test_pair(x, y);
        } else {
            int pairs = 10 + src.draw(20);
            for (int i = 0; i < pairs; ++i) {
                auto &x = all[src.draw(all.size())];
                auto &y = all[src.draw(all.size())];
                test_pair(x, y);
            }
            for (auto &x : all)
                test_pair(x, x);
        }
        // contracts
        up.accept_nulls = true;
        for (auto &x : all) {
            std::size_t align = std::size_t(1) << src.draw(12), size = random_size(src);
            if (x.terminal) {
                bool threw = throws<std::bad_alloc>([&] { alloc(*x.r, size, align); });
                PBT_CHECK(threw, "%s served %zu bytes", x.text.c_str(), size);
                x.r->deallocate(nullptr, size, align);
                continue;
            }
            up.clear_events();
            std::size_t before = up.outstanding();
            void *p = nullptr;
            try {
                p = alloc(*x.r, 0, align);
            } catch (const std::exception &e) {
                fail("allocate(0, %zu) from %s failed: %s", align, x.text.c_str(), e.what());
            }
            PBT_CHECK(p == nullptr, "allocate(0, %zu) from %s is not null", align, x.text.c_str());
            PBT_CHECK(up.outstanding() == before, "allocate(0) from %s took storage", x.text.c_str());
            try {
                x.r->deallocate(nullptr, src.draw(2) ? size : 0, align);
            } catch (const std::exception &e) {
                fail("deallocate(nullptr) of %s failed: %s", x.text.c_str(), e.what());
            }
            check_sticky();
            PBT_CHECK(up.outstanding() == before, "deallocate(nullptr) of %s changed the upstream",
                      x.text.c_str());
            if (x.direct) {
                up.clear_events();
                void *q = nullptr;
                bool threw = throws<std::bad_alloc>([&] { q = alloc(*x.r, size, align); });
                PBT_CHECK(up.events().size() == 1 && up.events()[0].alloc && up.events()[0].size == size &&
                              up.events()[0].align == align && up.events()[0].failed == threw,
                          "identity did not forward allocate(%zu, %zu) unchanged", size, align);
                if (threw)
                    continue;
                PBT_CHECK(reinterpret_cast<uintptr_t>(q) == up.events()[0].ptr,
                          "identity did not pass on the pointer of its upstream");
                up.clear_events();
                x.r->deallocate(q, size, align);
                PBT_CHECK(up.events().size() == 1 && !up.events()[0].alloc, "identity did not forward a deallocation once");
                check_sticky();
            }
        }
        if (interesting)
            src.nontrivial();
        while (!extra.empty())
            extra.pop_back();
    }
    check_sticky();
    up.expect_balanced("all resources destroyed");
}
}  // namespace

void run(Src &src) {
    if (src.coin())
        host(src);
    else
        equality(src);
}
}  // namespace harness
