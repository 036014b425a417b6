// Allocators and host vectors: every byte from the given resource, exact requests, exact lifetimes.
// check: lib=memory,utils
// assume: vectors with different resources are not swapped (std::pmr makes that undefined)
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/details/resize_jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/memory/allocator.hpp>

#include "stack.hpp"
#include "tracked.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P25";
const char *const rule =
    "random operation sequences on an allocator object, host vectors or jagged vectors over two "
    "resources, with throwing constructors and failing resources, while the process-wide default "
    "resource refuses everything; non-trivial: for allocators three or more objects with a failure or "
    "over-aligned type, for vectors a growth plus a copy, move or swap";
const uint64_t quick_cases = 1500000;
const uint64_t thorough_cases = 18000000;

namespace {
void expect_event(ModelUpstream &up, bool alloc, std::size_t size, std::size_t align, const char *what) {
    check_sticky();
    PBT_CHECK(up.events().size() == 1, "%s: %zu requests to the resource", what, up.events().size());
    auto &e = up.events()[0];
    PBT_CHECK(e.alloc == alloc && e.size == size && e.align == align,
              "%s: request of %zu bytes aligned to %zu, expected %zu aligned to %zu", what, e.size, e.align,
              size, align);
}

template <typename T>
void allocator(Src &src, ModelUpstream &up) {
    vecmem::allocator a(up);
    auto &life = Lifetimes::get();
    struct Blk {
        T *p;
        std::size_t n;
    };
    std::vector<Blk> raw;
    std::vector<std::pair<T *, uint64_t>> objs;
    struct Bytes {
        void *p;
        std::size_t n, al;
        bool def;
    };
    std::vector<Bytes> bytes;
    LiveSet live;
    int n_objs = 0;
    bool special = alignof(T) > FUNDAMENTAL;
    auto dies = [&](T *p, uint64_t v) {
        PBT_CHECK(p->value() == v, "object changed");
        up.clear_events();
        auto d = life.destroyed;
        a.delete_object(p);
        check_sticky();
        PBT_CHECK(life.destroyed == d + 1, "delete_object destroyed %zu objects", (size_t)(life.destroyed - d));
        expect_event(up, false, sizeof(T), alignof(T), "delete_object");
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 25, 600, 150));
    for (int op = 0; op < nops; ++op) {
        up.clear_events();
        up.fail_all = src.chance(1, 10);
        switch (src.draw(8)) {
            case 0:
            case 1: {
                uint64_t v = src.draw(1000), w = src.draw(1000);
                int args = src.draw(3);
                bool cthrow = src.chance(1, 5);
                life.throw_in = cthrow ? 0 : -1;
                PBT_TRACE(src, "new_object%s%s", cthrow ? " (ctor throws)" : "", up.fail_all ? " (no memory)" : "");
                auto c = life.constructed;
                std::size_t before = up.live().size();
                try {
                    T *p = args == 0   ? a.new_object<T>()
                           : args == 1 ? a.new_object<T>(v)
                                       : a.new_object<T>(v, w);
                    PBT_CHECK(!cthrow && !up.fail_all, "a failure was swallowed");
                    expect_event(up, true, sizeof(T), alignof(T), "new_object");
                    PBT_CHECK(life.constructed == c + 1, "constructed %zu objects", (size_t)(life.constructed - c));
                    PBT_CHECK(up.contains(p, sizeof(T)), "object is not in the block");
                    uint64_t val = args == 0 ? 0 : args == 1 ? v : v * 1000003 + w;
                    PBT_CHECK(p->value() == val, "object has the wrong value");
                    objs.push_back({p, val});
                    ++n_objs;
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all, "bad_alloc without reason");
                    special = true;
                } catch (const CtorError &) {
                    PBT_CHECK(cthrow, "constructor error without reason");
                    special = true;
                    PBT_CHECK(up.live().size() == before, "the memory was not returned when the constructor failed");
                }
                life.throw_in = -1;
                break;
            }
            case 2:
                if (!objs.empty()) {
                    PBT_TRACE(src, "delete_object");
                    std::size_t k = src.draw(objs.size());
                    auto o = objs[k];
                    objs.erase(objs.begin() + k);
                    dies(o.first, o.second);
                }
                break;
            case 3:
            case 4: {
                std::size_t n = pbt::sized(src, 20, 3000, 200);
                bool huge = sizeof(T) > 1 && src.chance(1, 8);
                if (huge)
                    n = SIZE_MAX / sizeof(T) + 1 + src.draw(2);
                bool one = !huge && src.chance(1, 4);
                if (one)
                    n = 1;
                PBT_TRACE(src, "allocate_object %zu", n);
                try {
                    T *p = one ? a.allocate_object<T>() : a.allocate_object<T>(n);
                    PBT_CHECK(!huge, "allocated %zu objects of %zu bytes", n, sizeof(T));
                    PBT_CHECK(!up.fail_all || n == 0, "a failure was swallowed");
                    expect_event(up, true, n * sizeof(T), alignof(T), "allocate_object");
                    if (n > 0) {
                        live.add(p, n * sizeof(T), alignof(T), alignof(T));
                        PBT_CHECK(up.contains(p, n * sizeof(T)), "not inside the block");
                        raw.push_back({p, n});
                    }
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all || huge, "bad_alloc without reason");
                    special = true;
                }
                break;
            }
            case 5:
                if (!raw.empty()) {
                    std::size_t k = src.draw(raw.size());
                    auto b = raw[k];
                    raw.erase(raw.begin() + k);
                    live.take(reinterpret_cast<uintptr_t>(b.p));
                    PBT_TRACE(src, "deallocate_object %zu", b.n);
                    if (b.n == 1 && src.coin())
                        a.deallocate_object(b.p);
                    else
                        a.deallocate_object(b.p, b.n);
                    expect_event(up, false, b.n * sizeof(T), alignof(T), "deallocate_object");
                }
                break;
            case 6: {
                std::size_t n = src.draw(100), al = std::size_t(1) << src.draw(9);
                bool def = src.coin();
                PBT_TRACE(src, "allocate_bytes %zu %zu", n, al);
                try {
                    void *p = opaque(def ? a.allocate_bytes(n) : a.allocate_bytes(n, al));
                    if (def)
                        al = FUNDAMENTAL;
                    if (n == 0) {
                        PBT_CHECK(p == nullptr && up.live().size() == raw.size() + objs.size() + bytes.size(),
                                  "zero bytes took memory");
                        break;
                    }
                    PBT_CHECK(!up.fail_all, "a failure was swallowed");
                    expect_event(up, true, n, al, "allocate_bytes");
                    live.add(p, n, al, al);
                    bytes.push_back({p, n, al, def});
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all, "bad_alloc without reason");
                }
                break;
            }
            default:
                if (!bytes.empty()) {
                    std::size_t k = src.draw(bytes.size());
                    auto b = bytes[k];
                    bytes.erase(bytes.begin() + k);
                    live.take(reinterpret_cast<uintptr_t>(b.p));
                    PBT_TRACE(src, "deallocate_bytes %zu %zu", b.n, b.al);
                    if (b.def)
                        a.deallocate_bytes(b.p, b.n);
                    else
                        a.deallocate_bytes(b.p, b.n, b.al);
                    expect_event(up, false, b.n, b.al, "deallocate_bytes");
                } else {
                    a.deallocate_bytes(nullptr, 5, 8);
                    PBT_CHECK(up.events().empty() || up.events()[0].ptr == 0, "null deallocation");
                }
        }
        up.fail_all = false;
        check_sticky();
        live.verify_all();
        PBT_CHECK(life.n_alive == (int64_t)objs.size(), "%ld objects alive, expected %zu", (long)life.n_alive,
                  objs.size());
        PBT_CHECK(up.live().size() == raw.size() + objs.size() + bytes.size(), "%zu blocks outstanding, expected %zu",
                  up.live().size(), raw.size() + objs.size() + bytes.size());
    }
    while (!objs.empty()) {
        dies(objs.back().first, objs.back().second);
        objs.pop_back();
    }
    for (auto &b : raw)
        a.deallocate_object(b.p, b.n);
    for (auto &b : bytes)
        a.deallocate_bytes(b.p, b.n, b.al);
    check_sticky();
    if (n_objs >= 3 && special)
        src.nontrivial();
}

template <typename T>
struct Make {
    static T make(uint64_t v) { return T(v); }
    static uint64_t get(const T &t) { return t.value(); }
};
template <>
struct Make<short> {
    static short make(uint64_t v) { return (short)v; }
    static uint64_t get(short t) { return (uint64_t)t; }
};
template <>
struct Make<double> {
    static double make(uint64_t v) { return (double)v; }
    static uint64_t get(double t) { return (uint64_t)t; }
};

/// All requests so far were for whole numbers of elements
void check_requests(ModelUpstream &up, std::initializer_list<std::pair<std::size_t, std::size_t>> types) {
    check_sticky();
    for (auto &e : up.events()) {
        bool ok = false;
        for (auto &t : types)
            ok = ok || (e.size % t.first == 0 && e.align == t.second);
        PBT_CHECK(ok, "request of %zu bytes aligned to %zu is not for whole elements", e.size, e.align);
    }
    up.clear_events();
}

template <typename T>
void vectors(Src &src, ModelUpstream &a, ModelUpstream &b) {
    using V = vecmem::vector<T>;
    ModelUpstream *ups[2] = {&a, &b};
    std::vector<V> vs;
    std::vector<std::vector<uint64_t>> ref;
    std::vector<int> of;
    vs.reserve(6);
    int copies = 0, growths = 0;
    auto create = [&](int u) {
        vs.emplace_back(ups[u]);
        ref.emplace_back();
        of.push_back(u);
    };
    create(0);
    create(1);
    create(0);
    auto check = [&] {
        check_requests(a, {{sizeof(T), alignof(T)}});
        check_requests(b, {{sizeof(T), alignof(T)}});
        std::size_t blocks[2] = {0, 0};
        for (std::size_t i = 0; i < vs.size(); ++i) {
            PBT_CHECK(vs[i].size() == ref[i].size(), "vector %zu has size %zu instead of %zu", i, vs[i].size(),
                      ref[i].size());
            PBT_CHECK(vs[i].get_allocator().resource() == ups[of[i]], "vector %zu changed its resource", i);
            for (std::size_t k = 0; k < ref[i].size(); ++k)
                PBT_CHECK(Make<T>::get(vs[i][k]) == ref[i][k], "element changed");
            if (vs[i].capacity() > 0) {
                PBT_CHECK(ups[of[i]]->contains(vs[i].data(), vs[i].capacity() * sizeof(T)),
                          "storage of vector %zu is not from its resource", i);
                ++blocks[of[i]];
            }
            auto view = vecmem::get_data(vs[i]);
            auto cview = vecmem::get_data(static_cast<const V &>(vs[i]));
            PBT_CHECK(view.ptr() == vs[i].data() && view.size() == vs[i].size() && cview.ptr() == vs[i].data() &&
                          cview.size() == vs[i].size() && view == cview,
                      "view does not describe the vector");
        }
        for (int u = 0; u < 2; ++u)
            PBT_CHECK(ups[u]->live().size() == blocks[u], "%zu blocks outstanding, expected %zu",
                      ups[u]->live().size(), blocks[u]);
        check_sticky();
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 25, 600, 150));
    for (int op = 0; op < nops; ++op) {
        std::size_t i = src.draw(vs.size()), j = src.draw(vs.size());
        switch (src.draw(9)) {
            case 0:
            case 1:
            case 2: {
                uint64_t v = src.draw(1000);
                PBT_TRACE(src, "push %zu", i);
                std::size_t c = vs[i].capacity();
                vs[i].push_back(Make<T>::make(v));
                ref[i].push_back(v);
                growths += vs[i].capacity() != c;
                break;
            }
            case 3: {
                std::size_t n = pbt::sized(src, 40, 5000, 200);
                PBT_TRACE(src, "resize %zu", n);
                vs[i].resize(n);
                ref[i].resize(n, 0);
                break;
            }
            case 4:
                PBT_TRACE(src, "shrink/clear");
                if (src.coin()) {
                    vs[i].clear();
                    ref[i].clear();
                }
                vs[i].shrink_to_fit();
                break;
            case 5:
                PBT_TRACE(src, "assign %zu<-%zu", i, j);
                vs[i] = vs[j];
                ref[i] = ref[j];
                ++copies;
                break;
            case 6:
                if (i == j)
                    break;
                PBT_TRACE(src, "move assign %zu<-%zu", i, j);
                vs[i] = std::move(vs[j]);
                ref[i] = ref[j];
                vs[j].clear();
                ref[j].clear();
                ++copies;
                break;
            case 7:
                if (of[i] != of[j])
                    break;
                PBT_TRACE(src, "swap %zu %zu", i, j);
                std::swap(vs[i], vs[j]);
                std::swap(ref[i], ref[j]);
                ++copies;
                break;
            default: {
                // copy with a resource
                PBT_TRACE(src, "copy %zu to %zu's resource", i, j);
                V c(vs[i], ups[of[j]]);
                check_requests(a, {{sizeof(T), alignof(T)}});
                if (!c.empty())
                    PBT_CHECK(ups[of[j]]->contains(c.data(), c.size() * sizeof(T)), "copy is elsewhere");
                V d(std::move(c));
                PBT_CHECK(d.size() == ref[i].size(), "moved vector lost elements");
                ++copies;
            }
        }
        check();
    }
    vs.clear();
    check_sticky();
    if (growths > 0 && copies > 0)
        src.nontrivial();
}

template <typename T>
void jagged(Src &src, ModelUpstream &a, ModelUpstream &b) {
    using J = vecmem::jagged_vector<T>;
    using V = vecmem::vector<T>;
    using VV = vecmem::data::vector_view<T>;
    ModelUpstream *ups[2] = {&a, &b};
    std::vector<J> vs;
    std::vector<std::vector<std::vector<uint64_t>>> ref(3);
    int of[3] = {0, 1, 0};
    for (int i = 0; i < 3; ++i)
        vs.emplace_back(ups[of[i]]);
    int copies = 0, growths = 0;
    auto check = [&] {
        for (int u = 0; u < 2; ++u)
            check_requests(*ups[u], {{sizeof(T), alignof(T)}, {sizeof(V), alignof(V)}});
        std::size_t blocks[2] = {0, 0};
        for (std::size_t i = 0; i < vs.size(); ++i) {
            PBT_CHECK(vs[i].size() == ref[i].size(), "jagged vector has %zu rows instead of %zu", vs[i].size(),
                      ref[i].size());
            for (std::size_t r = 0; r < ref[i].size(); ++r) {
                const V &row = vs[i][r];
                PBT_CHECK(row.get_allocator().resource() == ups[of[i]], "row %zu does not use the resource of its jagged vector",
                          r);
                PBT_CHECK(row.size() == ref[i][r].size(), "row size differs");
                for (std::size_t k = 0; k < row.size(); ++k)
                    PBT_CHECK(Make<T>::get(row[k]) == ref[i][r][k], "element changed");
                if (row.capacity() > 0) {
                    PBT_CHECK(ups[of[i]]->contains(row.data(), row.capacity() * sizeof(T)), "row storage is elsewhere");
                    ++blocks[of[i]];
                }
            }
            if (vs[i].capacity() > 0)
                ++blocks[of[i]];
        }
        for (int u = 0; u < 2; ++u)
            PBT_CHECK(ups[u]->live().size() == blocks[u], "%zu blocks outstanding, expected %zu",
                      ups[u]->live().size(), blocks[u]);
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 20, 600, 150));
    for (int op = 0; op < nops; ++op) {
        std::size_t i = src.draw(vs.size()), j = src.draw(vs.size());
        switch (src.draw(10)) {
            case 0:
            case 1:
                PBT_TRACE(src, "new row");
                vs[i].emplace_back();
                ref[i].emplace_back();
                ++growths;
                break;
            case 2:
            case 3:
                if (!vs[i].empty()) {
                    std::size_t r = src.draw(vs[i].size()), n = 1 + src.draw(5);
                    PBT_TRACE(src, "push %zu to row %zu", n, r);
                    for (std::size_t k = 0; k < n; ++k) {
                        uint64_t v = src.draw(1000);
                        vs[i][r].push_back(Make<T>::make(v));
                        ref[i][r].push_back(v);
                    }
                    ++growths;
                }
                break;
            case 4: {
                std::size_t n = src.draw(8);
                PBT_TRACE(src, "resize %zu", n);
                if (src.coin())
                    vecmem::details::resize_jagged_vector(vs[i], n);
                else
                    vs[i].resize(n);
                ref[i].resize(n);
                break;
            }
            case 5:
                PBT_TRACE(src, "assign %zu<-%zu", i, j);
                vs[i] = vs[j];
                ref[i] = ref[j];
                ++copies;
                break;
            case 6:
                if (i == j)
                    break;
                PBT_TRACE(src, "move assign %zu<-%zu", i, j);
                vs[i] = std::move(vs[j]);
                ref[i] = ref[j];
                vs[j].clear();
                ref[j].clear();
                ++copies;
                break;
            case 7:
                if (of[i] == of[j]) {
                    PBT_TRACE(src, "swap");
                    std::swap(vs[i], vs[j]);
                    std::swap(ref[i], ref[j]);
                    ++copies;
                }
                break;
            case 8: {
                PBT_TRACE(src, "erase");
                if (!vs[i].empty()) {
                    std::size_t r = src.draw(vs[i].size());
                    vs[i].erase(vs[i].begin() + r);
                    ref[i].erase(ref[i].begin() + r);
                }
                break;
            }
            default: {
                // descriptors of the rows come from the vector's resource or the one given
                bool given = src.coin();
                ModelUpstream &from = given ? *ups[src.draw(2)] : *ups[of[i]];
                PBT_TRACE(src, "get_data of %zu", i);
                check();
                std::size_t n0 = a.live().size() + b.live().size();
                auto test = [&](auto &&d) {
                    PBT_CHECK(d.size() == vs[i].size(), "view has %zu rows", (size_t)d.size());
                    if (d.size() > 0) {
                        PBT_CHECK(from.contains(d.ptr(), d.size() * sizeof(VV)) && d.host_ptr() == d.ptr(),
                                  "row descriptors are not in the right resource");
                        PBT_CHECK(a.live().size() + b.live().size() == n0 + 1, "not one block for the descriptors");
                    }
                    for (std::size_t r = 0; r < d.size(); ++r)
                        PBT_CHECK(d.ptr()[r].ptr() == vs[i][r].data() && d.ptr()[r].size() == vs[i][r].size() &&
                                      d.ptr()[r].capacity() == vs[i][r].size(),
                                  "row %zu is described wrongly", r);
                    auto moved = std::move(d);
                    PBT_CHECK(moved.size() == vs[i].size(), "moved view lost its rows");
                };
                if (src.coin())
                    test(vecmem::get_data(vs[i], given ? &from : nullptr));
                else
                    test(vecmem::get_data(static_cast<const J &>(vs[i]), given ? &from : nullptr));
                check_requests(a, {{sizeof(VV), alignof(VV)}, {sizeof(VV), FUNDAMENTAL}});
                check_requests(b, {{sizeof(VV), alignof(VV)}, {sizeof(VV), FUNDAMENTAL}});
            }
        }
        check();
    }
    vs.clear();
    check_sticky();
    if (growths > 1 && copies > 0)
        src.nontrivial();
}

struct NoDefault {
    std::pmr::memory_resource *old;
    NoDefault() : old(std::pmr::set_default_resource(std::pmr::null_memory_resource())) {}
    ~NoDefault() { std::pmr::set_default_resource(old); }
};
}  // namespace

void run(Src &src) {
    Lifetimes::get().reset();
    ModelUpstream a(&src, 0, ModelUpstream::Place::Separated), b(&src, 1, ModelUpstream::Place::Separated);
    a.name = "resource 0";
    b.name = "resource 1";
    NoDefault no_default;
    try {
        switch (src.draw(10)) {
            case 0:
                allocator<Tracked<8, 0>>(src, a);
                break;
            case 1:
                allocator<Tracked<64, 40>>(src, a);
                break;
            case 2:
                allocator<Tracked<16, 1>>(src, a);
                break;
            case 3:
                vectors<Tracked<8, 1>>(src, a, b);
                break;
            case 4:
                vectors<Tracked<128, 1>>(src, a, b);
                break;
            case 5:
                vectors<short>(src, a, b);
                break;
            case 6:
                vectors<double>(src, a, b);
                break;
            case 7:
                jagged<Tracked<8, 2>>(src, a, b);
                break;
            case 8:
                jagged<Tracked<32, 2>>(src, a, b);
                break;
            default:
                jagged<double>(src, a, b);
        }
    } catch (const std::bad_alloc &) {
        fail("memory was requested from somewhere else than the given resource");
    }
    check_sticky();
    PBT_CHECK(Lifetimes::get().n_alive == 0, "%ld objects were never destroyed", (long)Lifetimes::get().n_alive);
    a.expect_balanced("everything destroyed");
    b.expect_balanced("everything destroyed");
}
}  // namespace harness
