// Injected upstream failures at every position of generated allocation, construction, growth and copy operations.
// check: lib=memory,utils
// assume: the stacks of resources are used from one thread; failures are those of allocation calls of the upstream
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/memory/allocator.hpp>
#include <vecmem/memory/unique_ptr.hpp>

#include "copyworld.hpp"
#include "stack.hpp"
#include "tracked.hpp"

using namespace pbt;

namespace harness {
using Tr = Tracked<8, 8>;
const char *const id = "P22";
const char *const rule =
    "histories over a random graph of resources with failing upstream calls, or 1..4 operations (constructing, "
    "growing, assigning or copying buffers, containers and unique pointers) each repeated with a failure at every "
    "one of its upstream calls; non-trivial: at least one failure was injected while other blocks were live";
const uint64_t quick_cases = 250000;
const uint64_t thorough_cases = 3000000;

// ---------------------------------------------------------------------------------------------- graphs of resources
void history(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    // failures during construction as well
    if (src.chance(1, 4))
        up.fail_calls.insert(src.draw(4));
    {
        Graph g(src, up, 1 + src.draw(4));
        for (auto &n : g.nodes)
            src.label(kind_name(n.kind));
        PBT_TRACE(src, "%s", g.describe().c_str());
        LiveSet live;
        pbt::History hist(src, thorough() ? 51 : 26);
        int nops = hist.length();
        unsigned mode = src.draw(3);  // single failures, windows, above a size
        auto release = [&](uintptr_t p) {
            auto b = live.take(p);
            PBT_TRACE(src, "free(%zu)@%d", b.size, b.owner);
            g.nodes[b.owner].ptr->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
        };
        for (int i = 0; i < nops; ++i) {
            if (mode == 0 && src.chance(1, 3)) {
                up.fail_calls.insert(up.alloc_calls() + src.draw(3));
            } else if (mode == 1 && src.chance(1, 4)) {
                up.fail_all = !up.fail_all;
                PBT_TRACE(src, "upstream %s", up.fail_all ? "fails" : "works");
            } else if (mode == 2 && src.chance(1, 4)) {
                up.max_request = src.coin() ? std::size_t(64) << 20 : std::size_t(1) << src.draw(22);
                PBT_TRACE(src, "upstream serves up to %zu bytes", up.max_request);
            }
            if (live.empty() || hist.next(5, 3, 5) < 3) {
                int k = src.chance(1, 4) ? static_cast<int>(src.draw(g.nodes.size()))
                                         : static_cast<int>(g.nodes.size()) - 1;
                std::size_t size = random_size(src), align = g.promise(k, random_align(src));
                if (hist.little())
                    size = 1 + src.draw(300);
                auto request = [&]() {
                    PBT_TRACE(src, "alloc(%zu,%zu)@%d", size, align, k);
                    up.clear_events();
                    void *p = nullptr;
                    bool threw = throws<std::bad_alloc>([&] { p = alloc(*g.nodes[k].ptr, size, align); });
                    check_sticky();
                    bool failed = false;
                    for (auto &e : up.events())
                        failed = failed || e.failed;
                    if (!threw) {
                        live.add(p, size, align, align, k);
                        PBT_CHECK(up.covers(p, size), "allocate(%zu, %zu) from %s returned %p, not inside storage of the upstream",
                                  size, align, g.nodes[k].text.c_str(), p);
                        return true;
                    }
                    PBT_CHECK(failed || g.can_fail(k), "allocate(%zu, %zu) from %s failed although the upstream did not", size,
                              align, g.nodes[k].text.c_str());
                    if (failed) {
                        src.label("failed");
                        if (!live.empty())
                            src.nontrivial();
                    }
                    return false;
                };
                if (!request() && src.coin()) {
                    // the upstream recovers: so does the resource
                    up.fail_calls.clear();
                    up.fail_all = false;
                    up.max_request = std::size_t(64) << 20;
                    PBT_TRACE(src, "upstream works");
                    request();
                }
            } else {
                release(live.nth(src.draw(live.size())));
            }
            check_sticky();
            live.verify_all();
            for (auto &b : live.blocks)
                PBT_CHECK(up.covers(reinterpret_cast<void *>(b.first), b.second.size),
                          "storage of a live block went back to the upstream");
        }
        while (!live.empty())
            release(live.nth(src.draw(live.size())));
        check_sticky();
    }
    check_sticky();
    up.expect_balanced("all resources destroyed");
}

/// Two equal resources with a limit of their own: in one of them requests fail because of the upstream, in the other
/// one those requests are just not made. Whatever the second one can serve, the first one can serve too.
void twins(Src &src) {
    ModelUpstream u1(&src, 0, ModelUpstream::Place::Separated), u2(&src, 1, ModelUpstream::Place::Separated);
    // (same placement)
    u1.reuse = u2.reuse = false;
    {
        std::size_t init = 256 * (1 + src.draw(64)), maxi = init + src.draw(1 << 17);
        vecmem::arena_memory_resource a1(u1, init, maxi), a2(u2, init, maxi);
        PBT_TRACE(src, "arenas of %zu to %zu bytes", init, maxi);
        LiveSet l1, l2;
        std::vector<std::pair<uintptr_t, uintptr_t>> both;
        pbt::History hist(src, 31);
        int nops = hist.length();
        for (int i = 0; i < nops; ++i) {
            if (both.empty() || hist.next(5, 3, 5) < 3) {
                std::size_t size = 1 + src.draw(hist.little() ? 300 : src.coin() ? 1000 : 40000);
                bool fault = src.chance(1, 3);
                if (fault) {
                    // does this one get to the upstream at all?
                    u1.fail_all = true;
                    void *p = nullptr;
                    u1.clear_events();
                    PBT_TRACE(src, "alloc(%zu) with a failing upstream", size);
                    bool threw = throws<std::bad_alloc>([&] { p = alloc(a1, size, FUNDAMENTAL); });
                    u1.fail_all = false;
                    if (threw) {
                        if (!both.empty() && !u1.events().empty())
                            src.nontrivial();
                        continue;
                    }
                    a1.deallocate(p, size);
                }
                PBT_TRACE(src, "alloc(%zu)", size);
                void *p = nullptr, *q = nullptr;
                bool t1 = throws<std::bad_alloc>([&] { p = alloc(a1, size, FUNDAMENTAL); });
                bool t2 = throws<std::bad_alloc>([&] { q = alloc(a2, size, FUNDAMENTAL); });
                PBT_CHECK(t2 || !t1, "after upstream failures a request of %zu bytes fails, which the same arena without them serves",
                          size);
                if (!t1)
                    l1.add(p, size, FUNDAMENTAL, FUNDAMENTAL);
                if (!t2)
                    l2.add(q, size, FUNDAMENTAL, FUNDAMENTAL);
                if (t1 || t2) {
                    // from here on they may differ
                    while (!l1.empty()) {
                        auto x = l1.nth(0);
                        auto b = l1.take(x);
                        a1.deallocate(reinterpret_cast<void *>(x), b.size, b.align);
                    }
                    while (!l2.empty()) {
                        auto x = l2.nth(0);
                        auto b = l2.take(x);
                        a2.deallocate(reinterpret_cast<void *>(x), b.size, b.align);
                    }
                    both.clear();
                    if (!t1)
                        break;
                    continue;
                }
                both.push_back({reinterpret_cast<uintptr_t>(p), reinterpret_cast<uintptr_t>(q)});
            } else {
                std::size_t k = src.draw(both.size());
                auto x = both[k];
                both.erase(both.begin() + k);
                auto b = l1.take(x.first);
                l2.take(x.second);
                PBT_TRACE(src, "free(%zu)", b.size);
                a1.deallocate(reinterpret_cast<void *>(x.first), b.size, b.align);
                a2.deallocate(reinterpret_cast<void *>(x.second), b.size, b.align);
            }
            check_sticky();
            l1.verify_all();
        }
        for (auto &x : both) {
            auto b = l1.take(x.first);
            a1.deallocate(reinterpret_cast<void *>(x.first), b.size, b.align);
            a2.deallocate(reinterpret_cast<void *>(x.second), b.size, b.align);
        }
    }
    check_sticky();
    u1.expect_balanced("the arena destroyed");
}

// ------------------------------------------------------------------------------------------------------ operations
/// Runs operations with failures at each of their upstream calls
struct Faults {
    cw::World &w;
    bool swallows = false;  // a coalescing resource may hide failures
    bool caches = false;    // resources in between may keep memory
    unsigned injected = 0;

    ModelUpstream *below = nullptr;  // of the resources in between

    std::vector<ModelUpstream *> ups() {
        std::vector<ModelUpstream *> u{&w.host, &w.dev};
        if (below)
            u.push_back(below);
        return u;
    }
    std::size_t held() {
        std::size_t n = 0;
        for (auto *u : ups())
            n += u->live().size();
        return n;
    }
    /// @param f   the operation; everything it makes is gone when it returns, or throws
    /// @param ok  to be called after each try: what has to hold whether it failed or not
    template <typename F, typename V>
    void each(const char *what, F f, V ok) {
        Src &src = w.src;
        uint64_t calls[3], now[3];
        int k = 0;
        std::size_t before = held();
        for (auto *u : ups())
            now[k++] = u->alloc_calls();
        PBT_TRACE(src, "%s", what);
        f();
        w.settle(true);
        check_sticky();
        ok();
        PBT_CHECK(caches || held() == before, "%s: %zu upstream block(s) more than before", what, held() - before);
        k = 0;
        for (auto *u : ups()) {
            calls[k] = u->alloc_calls() - now[k];
            ++k;
        }
        k = 0;
        for (auto *u : ups()) {
            for (uint64_t i = 0; i < calls[k]; ++i) {
                if (calls[k] > 6 && !src.chance(6, static_cast<unsigned>(calls[k])))
                    continue;
                bool on = src.chance(1, 4);
                std::size_t b4 = held();
                u->clear_events();
                uint64_t at = u->alloc_calls() + i;
                for (uint64_t j = at; j < at + (on ? 100 : 1); ++j)
                    u->fail_calls.insert(j);
                PBT_TRACE(src, "%s with call %d of %s failing%s", what, (int)i, u->name.c_str(), on ? " and all later ones" : "");
                bool threw = throws<std::bad_alloc>(f);
                u->fail_calls.clear();
                bool failed = false;
                for (auto &e : u->events())
                    failed = failed || e.failed;
                w.settle(true);
                check_sticky();
                PBT_CHECK(!threw || failed, "%s failed although the upstream did not", what);
                PBT_CHECK(threw || !failed || swallows, "%s: a failure of %s was not reported", what, u->name.c_str());
                if (failed && b4 > 0)
                    src.nontrivial();
                injected += failed;
                ok();
                PBT_CHECK(caches || held() == b4, "%s failed, and %zu upstream block(s) were not given back", what, held() - b4);
            }
            ++k;
        }
        // and then it works again
        std::size_t b4 = held();
        f();
        w.settle(true);
        check_sticky();
        ok();
        PBT_CHECK(caches || held() == b4, "%s: %zu upstream block(s) more than before", what, held() - b4);
    }
};

std::vector<std::size_t> rows(Src &src) {
    std::vector<std::size_t> c(src.draw(5));
    for (auto &x : c)
        x = src.draw(5);
    return c;
}
std::string show(const std::vector<std::size_t> &c) {
    std::string s = "{";
    for (std::size_t i = 0; i < c.size(); ++i)
        s += (i ? "," : "") + std::to_string(c[i]);
    return s + "}";
}

template <typename T>
void one_1d(cw::World &w, Faults &fs, vecmem::memory_resource &mr) {
    Src &src = w.src;
    using cw::buffer_type;
    cw::Vec1<T> a(w);
    a.make(src.draw(7));
    auto v = a.view();
    auto ok = [&] { a.verify("after an operation on something else"); };
    auto type = src.coin() ? buffer_type::resizable : buffer_type::fixed_size;
    unsigned cap = static_cast<unsigned>(src.draw(9));
    switch (src.draw(5)) {
        case 0:
            fs.each("make a vector buffer", [&] { vecmem::data::vector_buffer<T> b(cap, mr, type); }, ok);
            break;
        case 1: {
            ++cap;
            vecmem::data::vector_buffer<T> b(cap, mr, type);
            fs.each(
                "assign a new vector buffer",
                [&] {
                    auto was = vecmem::get_data(b);
                    try {
                        b = vecmem::data::vector_buffer<T>(cap, mr, type);
                    } catch (const std::bad_alloc &) {
                        PBT_CHECK(vecmem::get_data(b) == was, "a failed assignment changed the target");
                        throw;
                    }
                },
                ok);
            break;
        }
        case 2:
            // the memory is usable by the backend
            if (&mr == &w.host || !fs.caches) {
                fs.each(
                    "copy a vector to a new buffer",
                    [&] {
                        auto b = w.copy().to(v, mr, w.direction(a.dev, &mr != &w.host));
                        w.backend->flush();
                        PBT_CHECK(w.copy().get_size(vecmem::get_data(b)) == a.size(), "the copy has the wrong size");
                    },
                    ok);
            }
            break;
        case 3: {
            vecmem::vector<T> t(&w.host);
            std::size_t n = src.draw(5);
            fs.each(
                "copy into a vector",
                [&] {
                    t.resize(n);
                    w.copy()(v, t, w.direction(a.dev, false, true))->wait();
                    PBT_CHECK(t.size() == a.size() && cw::bytes(t.data(), t.size()) == a.model, "the copied vector is wrong");
                },
                [&] {
                    ok();
                    for (auto &x : t)
                        asm volatile("" : : "r"(&x) : "memory");
                    if (t.size() > t.capacity() || (t.capacity() > 0 && !w.host.contains(t.data(), t.capacity() * sizeof(T))))
                        fail("the target of a failed copy is not valid any more");
                    vecmem::vector<T>(&w.host).swap(t);
                });
            break;
        }
        default: {
            vecmem::vector<T> t(&mr == &w.host ? &mr : &w.host);
            std::vector<T> model;
            for (std::size_t i = 0, n = src.draw(5); i < n; ++i) {
                model.push_back(Conv<T>::make(i + 1));
                t.push_back(model.back());
            }
            t.shrink_to_fit();
            auto same = [&] {
                ok();
                PBT_CHECK(cw::bytes(t.data(), t.size()) == cw::bytes(model.data(), model.size()),
                          "a vector lost its elements when it failed to grow");
            };
            fs.each(
                "append to a vector",
                [&] { t.reserve(t.capacity() + 1); },
                [&] {
                    same();
                    t.shrink_to_fit();
                });
        }
    }
}
template <typename T>
void one_jagged(cw::World &w, Faults &fs, vecmem::memory_resource &mr) {
    Src &src = w.src;
    using cw::buffer_type;
    cw::Jag<T> a(w);
    a.make(rows(src));
    auto v = a.view();
    auto ok = [&] { a.verify("after an operation on something else"); };
    auto type = src.coin() ? buffer_type::resizable : buffer_type::fixed_size;
    auto caps = rows(src);
    PBT_TRACE(src, "rows %s", show(caps).c_str());
    bool split = w.async ? &mr == &w.dev : src.coin();
    vecmem::memory_resource *host = split ? &w.host : nullptr;
    switch (src.draw(6)) {
        case 0:
            fs.each("make a jagged buffer", [&] { vecmem::data::jagged_vector_buffer<T> b(caps, mr, host, type); }, ok);
            break;
        case 1: {
            caps.push_back(2);
            vecmem::data::jagged_vector_buffer<T> b(caps, mr, host, type);
            fs.each(
                "assign a new jagged buffer",
                [&] {
                    auto was = vecmem::get_data(b);
                    try {
                        b = vecmem::data::jagged_vector_buffer<T>(caps, mr, host, type);
                    } catch (const std::bad_alloc &) {
                        auto is = vecmem::get_data(b);
                        PBT_CHECK(is.size() == was.size() && is.ptr() == was.ptr() && is.host_ptr() == was.host_ptr(),
                                  "a failed assignment changed the target");
                        throw;
                    }
                },
                ok);
            break;
        }
        case 2:
            if (&mr == &w.host || !fs.caches)
                fs.each(
                    "copy a jagged vector to a new buffer",
                    [&] {
                        auto b = w.copy().to(v, mr, host, w.direction(a.dev, &mr != &w.host));
                        w.backend->flush();
                        PBT_CHECK(b.size() == v.size(), "the copy has the wrong number of rows");
                    },
                    ok);
            break;
        case 3: {
            fs.each(
                "copy into a jagged vector",
                [&] {
                    vecmem::jagged_vector<T> t(&w.host);
                    w.copy()(v, t, w.direction(a.dev, false, true))->wait();
                    PBT_CHECK(t.size() == v.size(), "the copied vector is wrong");
                },
                ok);
            break;
        }
        case 4: {
            vecmem::jagged_vector<T> t(&w.host);
            for (auto c : caps)
                t.push_back(vecmem::vector<T>(c, Conv<T>::make(c), &w.host));
            fs.each(
                "describe a jagged vector",
                [&] {
                    auto d = vecmem::get_data(t, &mr == &w.dev ? &w.host : &mr);
                    const auto &ct = t;
                    auto e = vecmem::get_data(ct, &w.host);
                    PBT_CHECK(d.size() == t.size() && e.size() == t.size(), "the description has the wrong number of rows");
                    vecmem::data::jagged_vector_data<T> x;
                    x = std::move(d);
                },
                ok);
            break;
        }
        default: {
            vecmem::jagged_vector<T> t(&w.host);
            for (auto c : caps)
                t.push_back(vecmem::vector<T>(c, Conv<T>::make(c), &w.host));
            t.shrink_to_fit();
            fs.each(
                "append a row",
                [&] {
                    auto n = t.size();
                    vecmem::vector<T> row(3, Conv<T>::make(3), &w.host);
                    t.push_back(row);
                    t.resize(n);
                },
                [&] {
                    ok();
                    PBT_CHECK(t.size() >= caps.size(), "rows were lost");
                    t.resize(caps.size());
                    for (std::size_t i = 0; i < caps.size(); ++i)
                        PBT_CHECK(t[i] == vecmem::vector<T>(caps[i], Conv<T>::make(caps[i]), &w.host), "row %zu was changed", i);
                    t.shrink_to_fit();
                });
        }
    }
}
template <typename... VS>
void one_soa(cw::World &w, Faults &fs, vecmem::memory_resource &mr) {
    Src &src = w.src;
    using cw::buffer_type;
    using S = cw::Soa<VS...>;
    using C = typename S::C;
    typename S::Slot a(w);
    a.make(rows(src));
    auto ok = [&] { a.verify("after an operation on something else"); };
    auto type = S::vectors && src.coin() ? buffer_type::resizable : buffer_type::fixed_size;
    auto caps = rows(src);
    PBT_TRACE(src, "rows %s", show(caps).c_str());
    bool split = w.async ? &mr == &w.dev : src.coin();
    vecmem::memory_resource *host = split ? &w.host : nullptr;
    auto make = [&](const std::vector<std::size_t> &c) {
        if constexpr (S::jagged)
            return typename C::buffer(c, mr, host, type);
        else
            return typename C::buffer(static_cast<unsigned>(c.size()), mr, type);
    };
    switch (src.draw(4)) {
        case 0:
            fs.each("make an SoA buffer", [&] { auto b = make(caps); }, ok);
            break;
        case 1: {
            caps.push_back(2);
            auto b = make(caps);
            fs.each(
                "assign a new SoA buffer",
                [&] {
                    auto was = b.capacity();
                    auto ptr = b.payload().ptr();
                    try {
                        b = make(caps);
                    } catch (const std::bad_alloc &) {
                        PBT_CHECK(b.capacity() == was && b.payload().ptr() == ptr, "a failed assignment changed the target");
                        throw;
                    }
                },
                ok);
            break;
        }
        case 2: {
            auto view = a.view();
            fs.each(
                "copy into an SoA host container",
                [&] {
                    typename C::host h(w.host);
                    w.copy()(view, h, w.direction(a.dev, false, true))->wait();
                    if constexpr (S::vectors)
                        PBT_CHECK(h.size() == a.m.n, "the copied container has the wrong size");
                },
                ok);
            break;
        }
        default: {
            fs.each(
                "grow and describe an SoA host container",
                [&] {
                    typename C::host h(w.host);
                    if constexpr (S::vectors) {
                        h.reserve(caps.size());
                        h.resize(caps.size());
                        h.resize(caps.size() + 1);
                    }
                    auto d = vecmem::get_data(h, &w.host);
                    const auto &ch = h;
                    auto e = vecmem::get_data(ch);
                },
                ok);
        }
    }
}
void one_pointer(cw::World &w, Faults &fs, vecmem::memory_resource &mr0) {
    Src &src = w.src;
    vecmem::memory_resource &mr = &mr0 == &w.dev ? w.host : mr0;
    Lifetimes::get().reset();
    std::size_t n = 1 + src.draw(5);
    auto ok = [] {};
    switch (src.draw(5)) {
        case 0:
            fs.each("make a unique object", [&] { auto p = vecmem::make_unique_obj<Tr>(mr, 7); }, ok);
            break;
        case 1:
            fs.each("make a unique array", [&] { auto p = vecmem::make_unique_obj<Tr[]>(mr, n); }, ok);
            break;
        case 2: {
            auto p = vecmem::make_unique_alloc<int[]>(mr, n);
            p[n - 1] = 5;
            fs.each(
                "assign a unique array",
                [&] {
                    int *was = p.get();
                    try {
                        p = vecmem::make_unique_alloc<int[]>(mr, n);
                        p[n - 1] = 5;
                    } catch (const std::bad_alloc &) {
                        PBT_CHECK(p.get() == was && p[n - 1] == 5, "a failed assignment changed the target");
                        throw;
                    }
                },
                ok);
            break;
        }
        case 3: {
            vecmem::allocator al(mr);
            fs.each(
                "make an object with an allocator",
                [&] {
                    Tr *p = al.new_object<Tr>(3u);
                    al.delete_object(p);
                },
                ok);
            break;
        }
        default: {
            std::vector<Tr, vecmem::polymorphic_allocator<Tr>> v(&mr);
            for (std::size_t i = 0; i < n; ++i)
                v.push_back(Tr(i + 1));
            v.shrink_to_fit();
            fs.each(
                "grow a vector of objects",
                [&] {
                    auto c = v;
                    std::vector<Tr, vecmem::polymorphic_allocator<Tr>> d(v, &mr);
                    v.reserve(v.capacity() + 1);
                },
                [&] {
                    v.shrink_to_fit();
                    PBT_CHECK(v.size() == n, "elements were lost");
                    for (std::size_t i = 0; i < n; ++i)
                        PBT_CHECK(v[i].value() == i + 1, "element %zu was changed", i);
                });
        }
    }
    PBT_CHECK(Lifetimes::get().n_alive == 0, "%d object(s) were never destroyed", (int)Lifetimes::get().n_alive);
}

void operations(Src &src) {
    namespace vt = vecmem::edm::type;
    cw::World w(src, src.chance(1, 3), 0);
    {
        Faults fs{w};
        std::unique_ptr<ModelUpstream> below;
        std::unique_ptr<Graph> g;
        vecmem::memory_resource *mr = &w.host;
        switch (src.draw(4)) {
            case 0:
                break;
            case 1:
            case 2:
                mr = &w.dev;
                break;
            default: {
                // a stack of resources in between
                if (w.async) {
                    mr = &w.dev;
                    break;
                }
                below = std::make_unique<ModelUpstream>(&src, 2);
                below->name = "the upstream";
                fs.below = below.get();
                g = std::make_unique<Graph>(src, *below, 1 + static_cast<int>(src.draw(3)), true, false);
                mr = g->top().ptr;
                fs.caches = true;
                for (auto &n : g->nodes) {
                    fs.swallows = fs.swallows || n.kind == K_COALESCE;
                    src.label(kind_name(n.kind));
                }
                PBT_TRACE(src, "%s", g->describe().c_str());
                if (g->promise(static_cast<int>(g->nodes.size()) - 1, 64) < 16 || g->can_fail(static_cast<int>(g->nodes.size()) - 1))
                    throw Discard();
            }
        }
        int n = 1 + static_cast<int>(src.draw(3));
        for (int i = 0; i < n; ++i) {
            switch (src.draw(9)) {
                case 0:
                    one_1d<int>(w, fs, *mr);
                    break;
                case 1:
                    one_1d<Pod<3, 1>>(w, fs, *mr);
                    break;
                case 2:
                    one_jagged<int>(w, fs, *mr);
                    break;
                case 3:
                    one_jagged<double>(w, fs, *mr);
                    break;
                case 4:
                    one_soa<vt::vector<int>, vt::scalar<double>, vt::vector<char>>(w, fs, *mr);
                    break;
                case 5:
                    one_soa<vt::jagged_vector<char>, vt::scalar<float>, vt::vector<short>, vt::jagged_vector<double>>(w, fs, *mr);
                    break;
                case 6:
                    one_soa<vt::scalar<int>, vt::jagged_vector<int>>(w, fs, *mr);
                    break;
                case 7:
                    one_soa<vt::scalar<int>, vt::scalar<double>>(w, fs, *mr);
                    break;
                default:
                    one_pointer(w, fs, *mr);
            }
            check_sticky();
        }
        g.reset();
        check_sticky();
        if (below)
            below->expect_balanced("everything destroyed");
    }
    check_sticky();
    w.host.expect_balanced("everything destroyed");
    w.dev.expect_balanced("everything destroyed");
}

void run(Src &src) {
    switch (src.draw(8)) {
        case 0:
        case 1:
        case 2:
            return history(src);
        case 3:
            return twins(src);
        default:
            return operations(src);
    }
}
}  // namespace harness
