// Device vectors against a model: operations, iterators, lifetimes, memory around the payload.
// check: lib=memory,utils
// assume: operations respect the capacity (it is a documented precondition)
// assume: constructors do not throw while a device vector runs them
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>

#include <list>

#include "hugeview.hpp"
#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P06";
const char *const rule =
    "random operation sequences on device vectors made from one view over a resizable buffer or raw "
    "memory with guards (capacities 0..64, element types of 1 to 128 byte alignment with and without "
    "lifetimes), compared with a std::vector; also fixed-size views; non-trivial: at least 5 "
    "modifications including one that removes and one that adds after it; 1 case in 24: elements at untouchable addresses, up to 2^38 bytes";
const uint64_t quick_cases = 2000000;
const uint64_t thorough_cases = 24000000;

namespace {
using vecmem::data::vector_view;

/// The payload memory and everything around it
template <typename T>
struct Memory {
    ModelUpstream &up;
    // (buffers do not hold types with destructors)
    std::conditional_t<Conv<T>::tracked, vecmem::data::vector_buffer<int>, vecmem::data::vector_buffer<T>> buf;
    std::vector<unsigned char> raw;
    unsigned char *area = nullptr;
    std::size_t area_size = 0;
    std::vector<unsigned char> snap;
    vector_view<T> view;
    unsigned size_word = 0;

    Memory(Src &src, ModelUpstream &u, unsigned cap, bool resizable) : up(u) {
        bool use_buffer = !Conv<T>::tracked && src.coin();
        if constexpr (Conv<T>::tracked) {
            use_buffer = false;
        } else if (use_buffer) {
            buf = vecmem::data::vector_buffer<T>(cap, up,
                                                 resizable ? vecmem::data::buffer_type::resizable
                                                           : vecmem::data::buffer_type::fixed_size);
            if (resizable && cap > 0)
                *buf.size_ptr() = 0;
            view = buf;
            if (!up.live().empty()) {
                area = reinterpret_cast<unsigned char *>(up.live().begin()->first);
                area_size = up.live().begin()->second.size;
            }
        }
        if (!use_buffer) {
            std::size_t g = 256;
            raw.assign(cap * sizeof(T) + 3 * g + alignof(T), 0x5c);
            uintptr_t p = reinterpret_cast<uintptr_t>(raw.data()) + g;
            p = (p + alignof(T) - 1) / alignof(T) * alignof(T);
            if (resizable)
                view = vector_view<T>(cap, &size_word, reinterpret_cast<T *>(p));
            else
                view = vector_view<T>(cap, reinterpret_cast<T *>(p));
            area = raw.data();
            area_size = raw.size();
        }
    }
    void keep() { snap.assign(area, area + area_size); }
    void check() {
        auto inside = [](const void *x, const void *p, std::size_t n) {
            return x >= p && x < static_cast<const char *>(p) + n;
        };
        for (std::size_t i = 0; i < area_size; ++i)
            if (area[i] != snap[i])
                PBT_CHECK(inside(area + i, view.ptr(), view.capacity() * sizeof(T)) ||
                              (view.size_ptr() && inside(area + i, view.size_ptr(), sizeof(unsigned))),
                          "a byte outside of the payload and the size was changed");
    }
};

template <typename T>
void check_state(Src &src, const vector_view<T> &view, const std::vector<vecmem::device_vector<T>> &dvs,
                 const std::vector<uint64_t> &ref, bool deep) {
    for (std::size_t d = 0; d < dvs.size(); ++d) {
        auto &v = dvs[d];
        PBT_CHECK(v.size() == ref.size() && v.empty() == ref.empty(), "size %u, expected %zu", v.size(), ref.size());
        PBT_CHECK(v.capacity() == view.capacity() && v.max_size() == view.capacity(), "capacity %u instead of %u",
                  v.capacity(), view.capacity());
        PBT_CHECK(v.data() == view.ptr(), "data() is not the memory of the view");
        for (unsigned i = 0; i < ref.size(); ++i)
            PBT_CHECK(val(v[i]) == ref[i] && &v.at(i) == v.data() + i, "element %u has the wrong value", i);
        if (!ref.empty())
            PBT_CHECK(&v.front() == v.data() && &v.back() == v.data() + ref.size() - 1, "front or back");
    }
    PBT_CHECK(view.size() == ref.size(), "the view has size %u, expected %zu", view.size(), ref.size());
    if (!deep)
        return;
    vecmem::device_vector<T> v = dvs[src.draw(dvs.size())];
    const vecmem::device_vector<T> &c = v;
    T *base = v.data();
    auto at = [base](std::size_t i) { return base + i; };
    switch (src.draw(4)) {
        case 0:
            walk(src, v.begin(), v.end(), ref.size(), false, at, "begin..end");
            break;
        case 1:
            walk(src, v.rbegin(), v.rend(), ref.size(), true, at, "rbegin..rend");
            break;
        case 2:
            walk(src, src.coin() ? c.begin() : c.cbegin(), src.coin() ? c.end() : c.cend(), ref.size(), false, at,
                 "const begin..end");
            break;
        default:
            walk(src, src.coin() ? c.rbegin() : c.crbegin(), src.coin() ? c.rend() : c.crend(), ref.size(), true, at,
                 "const rbegin..rend");
    }
    // a constant vector made from the same view
    vecmem::device_vector<const T> cv(view);
    PBT_CHECK(cv.size() == ref.size(), "constant vector has size %u, expected %zu", cv.size(), ref.size());
    for (unsigned i = 0; i < ref.size(); ++i)
        PBT_CHECK(val(cv[i]) == ref[i] && &cv.at(i) == base + i, "constant vector has the wrong element %u", i);
    if (!ref.empty())
        PBT_CHECK(&cv.front() == base && &cv.back() == base + ref.size() - 1, "front or back of constant vector");
}

template <typename T>
void resizable(Src &src) {
    using V = vecmem::device_vector<T>;
    auto &life = Lifetimes::get();
    ModelUpstream up(&src, 0, ModelUpstream::Place::Separated);
    unsigned cap = sized(src, src.chance(1, 4) ? 65 : 17, 5000);
    {
        Memory<T> mem(src, up, cap, true);
        if (mem.view.size_ptr() == nullptr)
            throw Discard();  // zero capacity buffer: nothing to modify
        std::vector<V> dvs;
        dvs.reserve(8);
        dvs.emplace_back(mem.view);
        std::vector<uint64_t> ref;
        int mods = 0;
        bool removed = false, added_after = false;
        auto rm = [&](std::size_t n) { removed = removed || n > 0; };
        auto add = [&](std::size_t n) {
            ++mods;
            added_after = added_after || (removed && n > 0);
        };
        int nops = 1 + src.draw(thorough() ? 60 : 30);
        for (int op = 0; op < nops; ++op) {
            if (src.chance(1, 8)) {
                V &to = dvs[src.draw(dvs.size())];
                V &from = dvs[src.draw(dvs.size())];
                PBT_CHECK(&(to = from) == &to, "assignment returns something else");
            }
            V &v = dvs[src.draw(dvs.size())];
            std::size_t room = cap - ref.size();
            uint64_t x = src.draw(30000);
            mem.keep();
            uint64_t constructed = life.constructed, destroyed = life.destroyed;
            std::size_t before = ref.size();
            bool implicit = false;
            switch (src.draw(17)) {
                case 0:
                case 1:
                    if (room > 0) {
                        PBT_TRACE(src, "push_back");
                        const T t = Conv<T>::make(x);
                        auto at = v.push_back(t);
                        PBT_CHECK(at == ref.size(), "push_back returned %u at size %zu", at, ref.size());
                        ref.push_back(norm<T>(x));
                        add(1);
                    }
                    break;
                case 2:
                    if (room > 0) {
                        PBT_TRACE(src, "emplace_back");
                        int how = src.draw(3);
                        T *e;
                        if constexpr (Conv<T>::tracked) {
                            uint64_t c0 = life.constructed, d0 = life.destroyed;
                            if (how == 0) {
                                e = &v.emplace_back();
                                ref.push_back(0);
                            } else if (how == 1) {
                                e = &v.emplace_back(x);
                                ref.push_back(x);
                            } else {
                                e = &v.emplace_back(x, x + 1);
                                ref.push_back(x * 1000003 + x + 1);
                            }
                            PBT_CHECK(life.constructed == c0 + 1 && life.destroyed == d0,
                                      "emplace_back made %zu objects", (size_t)(life.constructed - c0));
                        } else {
                            e = &v.emplace_back(Conv<T>::make(x));
                            ref.push_back(norm<T>(x));
                        }
                        PBT_CHECK(e == v.data() + ref.size() - 1, "emplace_back returned another element");
                        add(1);
                    }
                    break;
                case 3: {
                    unsigned n = src.draw(std::min<std::size_t>(room, cap > 64 ? cap : 10) + 1);
                    PBT_TRACE(src, "bulk_append(%u)", n);
                    auto at = v.bulk_append(n);
                    PBT_CHECK(at == ref.size(), "bulk_append returned %u at size %zu", at, ref.size());
                    ref.resize(ref.size() + n, zero<T>());
                    add(n);
                    break;
                }
                case 4: {
                    unsigned n = src.draw(std::min<std::size_t>(room, cap > 64 ? cap : 10) + 1);
                    PBT_TRACE(src, "bulk_append(%u, v)", n);
                    const T t = Conv<T>::make(x);
                    bool own = !ref.empty() && src.chance(1, 6);
                    std::size_t i = own ? src.draw(ref.size()) : 0;
                    auto w = own ? ref[i] : norm<T>(x);
                    auto at = v.bulk_append(n, own ? v[i] : t);
                    PBT_CHECK(at == ref.size(), "bulk_append returned %u at size %zu", at, ref.size());
                    ref.resize(ref.size() + n, w);
                    add(n);
                    break;
                }
                case 5:
                case 6:
                    if (!ref.empty()) {
                        PBT_TRACE(src, "pop_back");
                        auto n = v.pop_back();
                        ref.pop_back();
                        PBT_CHECK(n == ref.size(), "pop_back returned %u, expected %zu", n, ref.size());
                        rm(1);
                        ++mods;
                    }
                    break;
                case 7:
                    PBT_TRACE(src, "clear");
                    v.clear();
                    rm(ref.size());
                    ref.clear();
                    ++mods;
                    break;
                case 8:
                case 9: {
                    unsigned n = src.draw(cap + 1);
                    PBT_TRACE(src, "resize(%u)", n);
                    if (src.coin()) {
                        v.resize(n);
                        ref.resize(n, zero<T>());
                    } else {
                        const T t = Conv<T>::make(x);
                        bool own = !ref.empty() && src.chance(1, 6);
                        std::size_t i = own ? src.draw(ref.size()) : 0;
                        auto w = own ? ref[i] : norm<T>(x);
                        v.resize(n, own ? v[i] : t);
                        ref.resize(n, w);
                    }
                    if (n < before)
                        rm(1);
                    add(n > before);
                    break;
                }
                case 10: {
                    unsigned n = src.draw(cap + 1);
                    PBT_TRACE(src, "assign(%u, v)", n);
                    const T t = Conv<T>::make(x);
                    v.assign(n, t);
                    rm(ref.size());
                    ref.assign(n, norm<T>(x));
                    add(n);
                    break;
                }
                case 11: {
                    std::size_t n = src.draw(std::min(cap, cap > 64 ? cap : 12u) + 1);
                    PBT_TRACE(src, "assign(range of %zu)", n);
                    std::vector<T> from;
                    rm(ref.size());
                    ref.clear();
                    for (std::size_t i = 0; i < n; ++i) {
                        from.push_back(Conv<T>::make(x + i));
                        ref.push_back(norm<T>(x + i));
                    }
                    if (src.coin()) {
                        v.assign(from.begin(), from.end());
                    } else {
                        std::list<T> l(from.begin(), from.end());
                        v.assign(l.begin(), l.end());
                    }
                    add(n);
                    break;
                }
                case 12:
                    if (!ref.empty()) {
                        unsigned i = src.draw(ref.size());
                        PBT_TRACE(src, "write [%u]", i);
                        T &r = src.coin() ? v[i] : src.coin() ? v.at(i) : *(v.begin() + i);
                        r = Conv<T>::make(x);
                        ref[i] = norm<T>(x);
                    }
                    break;
                case 13:
                    if (dvs.size() < 4) {
                        PBT_TRACE(src, "another vector");
                        if (src.coin())
                            dvs.emplace_back(mem.view);
                        else
                            dvs.emplace_back(v);
                    } else {
                        dvs[src.draw(dvs.size())] = V(mem.view);
                    }
                    break;
                case 14: {
                    // elements that are appended or resized without running constructors
                    if constexpr (vecmem::details::is_implicit_lifetime_v<T> && !Conv<T>::tracked) {
                        unsigned n = src.draw(room + 1);
                        int how = src.draw(4);
                        if (how >= 2)
                            n = src.draw(cap + 1);
                        PBT_TRACE(src, "implicit %d %u", how, n);
                        std::vector<unsigned char> bytes(reinterpret_cast<unsigned char *>(mem.view.ptr()),
                                                         reinterpret_cast<unsigned char *>(mem.view.ptr()) + cap * sizeof(T));
                        unsigned at = ref.size(), want = how < 2 ? ref.size() + n : n;
                        if (how == 0)
                            at = v.bulk_append_implicit(n);
                        else if (how == 1)
                            at = v.bulk_append_implicit_unsafe(n);
                        else if (how == 2)
                            v.resize_implicit(n);
                        else
                            v.resize_implicit_unsafe(n);
                        PBT_CHECK(at == ref.size(), "bulk_append_implicit returned %u at size %zu", at, ref.size());
                        PBT_CHECK(memcmp(bytes.data(), mem.view.ptr(), bytes.size()) == 0,
                                  "an implicit operation changed the payload");
                        PBT_CHECK(v.size() == want, "size %u after an implicit operation, expected %u", v.size(), want);
                        if (want < ref.size()) {
                            ref.resize(want);
                            rm(1);
                        }
                        // give the new ones a value, as a client has to
                        while (ref.size() < want) {
                            new (v.data() + ref.size()) T(Conv<T>::make(x));
                            ref.push_back(norm<T>(x));
                            implicit = true;
                        }
                        ++mods;
                    }
                    break;
                }
                case 15: {
                    if constexpr (Conv<T>::tracked) {
                        unsigned n = src.draw(room + 1);
                        PBT_TRACE(src, "bulk_append_implicit_unsafe(%u)", n);
                        auto at = v.bulk_append_implicit_unsafe(n);
                        PBT_CHECK(at == ref.size(), "bulk_append_implicit_unsafe returned %u", at);
                        PBT_CHECK(life.constructed == constructed, "an implicit append constructed something");
                        for (unsigned i = 0; i < n; ++i) {
                            new (v.data() + at + i) T(x + i);
                            ref.push_back(x + i);
                        }
                        add(n);
                    }
                    break;
                }
                default:
                    // appending one of the own elements
                    if (room > 0 && !ref.empty()) {
                        std::size_t i = src.draw(ref.size());
                        PBT_TRACE(src, "push_back own [%zu]", i);
                        if (src.coin())
                            v.push_back(v[i]);
                        else
                            v.emplace_back(v[i]);
                        ref.push_back(ref[i]);
                        add(1);
                    }
            }
            check_sticky();
            if (Conv<T>::tracked)
                PBT_CHECK(life.n_alive == (int64_t)ref.size(),
                          "%ld elements are alive with size %zu (%zu constructed, %zu destroyed)", (long)life.n_alive,
                          ref.size(), (size_t)(life.constructed - constructed), (size_t)(life.destroyed - destroyed));
            mem.check();
            check_state(src, mem.view, dvs, ref, op % 3 == 0);
            check_sticky();
        }
        dvs[0].clear();
        check_sticky();
        PBT_CHECK(life.n_alive == 0, "%ld elements left after clear", (long)life.n_alive);
        if (mods >= 5 && added_after)
            src.nontrivial();
    }
    check_sticky();
    up.expect_balanced("buffer destroyed");
}

template <typename T>
void fixed(Src &src) {
    using V = vecmem::device_vector<T>;
    ModelUpstream up(&src, 0, ModelUpstream::Place::Separated);
    unsigned cap = sized(src, 20, 5000);
    {
        Memory<T> mem(src, up, cap, false);
        std::vector<uint64_t> ref;
        for (unsigned i = 0; i < cap; ++i) {
            new (mem.view.ptr() + i) T(Conv<T>::make(100 + i));
            ref.push_back(norm<T>(100 + i));
        }
        std::vector<V> dvs;
        dvs.reserve(4);
        dvs.emplace_back(mem.view);
        dvs.emplace_back(dvs[0]);
        PBT_CHECK(dvs[0].size() == cap, "size %u over a fixed-size view of capacity %u", dvs[0].size(), cap);
        int nops = 1 + src.draw(10);
        for (int op = 0; op < nops; ++op) {
            mem.keep();
            if (cap > 0) {
                unsigned i = src.draw(cap);
                uint64_t x = src.draw(30000);
                V &v = dvs[src.draw(2)];
                T &r = src.coin() ? v[i] : src.coin() ? v.at(i) : *(v.end() - (cap - i));
                r = Conv<T>::make(x);
                ref[i] = norm<T>(x);
            }
            mem.check();
            check_state(src, mem.view, dvs, ref, true);
            check_sticky();
        }
        for (unsigned i = 0; i < cap; ++i)
            mem.view.ptr()[i].~T();
        check_sticky();
        src.label("fixed");
    }
    up.expect_balanced("buffer destroyed");
}

template <typename T>
void both(Src &src) {
    if (src.chance(1, 12))
        fixed<T>(src);
    else
        resizable<T>(src);
}
}  // namespace

void run(Src &src) {
    if (src.draw(24) == 1)
        return hc::any_vector(src);
    Lifetimes::get().reset();
    switch (src.draw(9)) {
        case 0:
            return both<int>(src);
        case 1:
            return both<char>(src);
        case 2:
            return both<uint64_t>(src);
        case 3:
            return both<Pod<7, 1>>(src);
        case 4:
            return both<Pod<64, 64>>(src);
        case 5:
            return both<Pair>(src);
        case 6:
            return both<Tracked<8, 2>>(src);
        case 7:
            return both<Tracked<128, 30>>(src);
        default:
            return both<Tracked<16, 0>>(src);
    }
}
}  // namespace harness
