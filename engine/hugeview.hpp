// Device containers over memory far larger than the memory here: only addresses, sizes and iterators can be judged.
#pragma once
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/edm/container.hpp>

#include "hugecopy.hpp"

namespace pbt {
namespace hc {

/// A position to look at
inline SZ some_index(Src &src, SZ n) {
    switch (src.draw(4)) {
        case 0:
            return n - 1 - static_cast<SZ>(src.draw(std::min<uint64_t>(n, 4)));
        case 1:
            return static_cast<SZ>(std::min<uint64_t>(n - 1, (uint64_t(1) << (24 + src.draw(8))) + src.draw(3) - 1));
        default:
            return static_cast<SZ>(src.draw(n));
    }
}
template <typename T>
uintptr_t addr(const T &t) {
    return reinterpret_cast<uintptr_t>(&t);
}

/// Judge every way of getting at the elements of a vector
template <typename V, typename T>
void judge_access(Src &src, V &v, uintptr_t at, SZ cap, SZ size, T *) {
    PBT_CHECK(v.size() == size, "size %u instead of %u", v.size(), size);
    PBT_CHECK(v.capacity() == cap, "capacity %u instead of %u", v.capacity(), cap);
    PBT_CHECK(v.empty() == (size == 0), "empty() is wrong at size %u", size);
    PBT_CHECK(v.max_size() >= cap, "max_size() %u is below the capacity %u", v.max_size(), cap);
    PBT_CHECK(reinterpret_cast<uintptr_t>(v.data()) == at, "data() is elsewhere");
    PBT_CHECK(v.end() - v.begin() == static_cast<std::ptrdiff_t>(size) &&
                  v.cend() - v.cbegin() == static_cast<std::ptrdiff_t>(size),
              "the iterators span %td elements instead of %u", v.end() - v.begin(), size);
    if (size == 0)
        return;
    auto is = [&](uintptr_t got, uint64_t i, const char *how) {
        PBT_CHECK(got == at + i * sizeof(T), "%s: element %zu (of %zu bytes) at %p instead of %p", how,
                  static_cast<std::size_t>(i), sizeof(T), reinterpret_cast<void *>(got),
                  reinterpret_cast<void *>(at + i * sizeof(T)));
    };
    SZ i = some_index(src, size);
    std::ptrdiff_t d = static_cast<std::ptrdiff_t>(i), n = static_cast<std::ptrdiff_t>(size);
    const auto &c = v;
    is(addr(v[i]), i, "[]");
    is(addr(v.at(i)), i, "at");
    is(addr(c[i]), i, "const []");
    is(addr(c.at(i)), i, "const at");
    is(addr(v.front()), 0, "front");
    is(addr(v.back()), size - 1, "back");
    is(addr(c.back()), size - 1, "const back");
    is(addr(*(v.begin() + d)), i, "begin() + i");
    is(addr(v.begin()[d]), i, "begin()[i]");
    is(addr(*(v.end() - (n - d))), i, "end() - (n - i)");
    is(addr(*(c.begin() + d)), i, "const begin() + i");
    is(addr(*(v.rbegin() + (n - 1 - d))), i, "rbegin() + i");
    is(addr(v.rbegin()[n - 1 - d]), i, "rbegin()[i]");
    is(addr(*(v.rend() - (d + 1))), i, "rend() - i");
    is(addr(*v.rbegin()), size - 1, "rbegin()");
    is(addr(*(c.crbegin() + (n - 1 - d))), i, "crbegin() + i");
    auto r = v.rbegin();
    r += n - 1 - d;
    is(addr(*r), i, "rbegin() += i");
    r -= n - 1 - d;
    PBT_CHECK(r == v.rbegin(), "moving a reverse iterator there and back");
    r += n;
    PBT_CHECK(r == v.rend(), "moving a reverse iterator to the end");
}

template <typename T>
void vector_case(Src &src) {
    Huge<T> h;
    h.make(src, 0, {huge_count(src, sizeof(T))}, src.coin());
    vecmem::device_vector<T> v(h.views[0]);
    SZ size = h.sizes[0];
    src.nontrivial();
    if (uint64_t(size) * sizeof(T) > (uint64_t(1) << 32))
        src.label("more than 4 GiB");
    T *t = nullptr;
    judge_access(src, v, h.at[0], h.caps[0], size, t);
    vecmem::device_vector<const T> cv(vecmem::data::vector_view<const T>(h.views[0]));
    judge_access(src, cv, h.at[0], h.caps[0], size, static_cast<const T *>(nullptr));
    if (h.resizable) {
        for (int k = 0; k < 3; ++k) {
            SZ n, expect = size;
            switch (src.draw(4)) {
                case 0:
                    size = n = static_cast<SZ>(src.draw(uint64_t(h.caps[0]) + 1));
                    v.resize_implicit(n);
                    break;
                case 1:
                    size = n = h.caps[0] - static_cast<SZ>(src.draw(std::min<uint64_t>(h.caps[0], 3) + 1));
                    v.resize_implicit_unsafe(n);
                    break;
                case 2:
                    n = static_cast<SZ>(src.draw(uint64_t(h.caps[0] - size) + 1));
                    PBT_CHECK(v.bulk_append_implicit(n) == expect, "bulk_append_implicit returned a wrong index");
                    size += n;
                    break;
                default:
                    n = h.caps[0] - size;
                    PBT_CHECK(v.bulk_append_implicit_unsafe(n) == expect, "bulk append returned a wrong index");
                    size += n;
            }
            PBT_TRACE(src, "  size becomes %u", size);
            judge_access(src, v, h.at[0], h.caps[0], size, t);
            PBT_CHECK(h.sizes[0] == size && cv.size() == size, "the sizes differ");
        }
    }
}

/// Jagged vectors with huge rows, or with very many of them
template <typename T>
void jagged_case(Src &src) {
    using Row = vecmem::data::vector_view<T>;
    src.nontrivial();
    if (src.coin()) {
        Huge<T> h;
        std::vector<SZ> caps(src.range(1, 5));
        for (SZ &c : caps)
            c = src.chance(1, 5) ? 0 : huge_count(src, sizeof(T));
        h.make(src, 0, caps, src.coin());
        auto view = h.jagged();
        vecmem::jagged_device_vector<T> j(view);
        PBT_CHECK(j.size() == caps.size(), "%zu rows instead of %zu", static_cast<std::size_t>(j.size()), caps.size());
        std::size_t i = src.draw(caps.size());
        std::ptrdiff_t d = static_cast<std::ptrdiff_t>(i), n = static_cast<std::ptrdiff_t>(caps.size());
        auto row = [&](auto &&r) {
            judge_access(src, r, h.at[i], caps[i], h.sizes[i], static_cast<T *>(nullptr));
        };
        row(j[i]);
        row(j.at(i));
        row(*(j.begin() + d));
        row(j.begin()[d]);
        row(*(j.rbegin() + (n - 1 - d)));
        return;
    }
    // the rows can not even be looked at here
    std::size_t n = std::size_t(1) << (28 + src.draw(9));
    n += src.draw(1001) - 500;
    Row *rows = reinterpret_cast<Row *>(Placer(src, 0, true).take(n * sizeof(Row), alignof(Row)));
    PBT_TRACE(src, "a jagged vector of %zu rows", n);
    vecmem::data::jagged_vector_view<T> view(n, rows, rows);
    vecmem::data::jagged_vector_view<const T> cview(view);
    PBT_CHECK(view.size() == n && view.capacity() == n && cview.size() == n, "a view of %zu rows has %zu", n,
              static_cast<std::size_t>(view.size()));
    vecmem::jagged_device_vector<T> j(view);
    vecmem::jagged_device_vector<const T> cj(cview);
    PBT_CHECK(j.size() == n && cj.size() == n && !j.empty(), "%zu rows instead of %zu",
              static_cast<std::size_t>(j.size()), n);
    PBT_CHECK(j.max_size() >= n && j.capacity() >= n, "a capacity below the size");
    std::ptrdiff_t d = static_cast<std::ptrdiff_t>(n);
    PBT_CHECK(j.begin() + d == j.end() && j.end() - d == j.begin(), "the iterators do not span %zu rows", n);
    PBT_CHECK(cj.begin() + d == cj.end(), "the constant iterators do not span %zu rows", n);
    PBT_CHECK(j.rbegin() + d == j.rend() && j.rend() - d == j.rbegin(), "reverse iterators do not span %zu rows", n);
    std::ptrdiff_t k = static_cast<std::ptrdiff_t>(src.draw(n));
    auto it = j.begin();
    it += k;
    PBT_CHECK(it != j.end() && it == j.end() - (d - k), "an iterator moved to %td is elsewhere", k);
    it -= k;
    PBT_CHECK(it == j.begin(), "an iterator moved back from %td is elsewhere", k);
}

template <typename BASE>
struct HugeFace : public BASE {
    using BASE::BASE;
};
/// A device container whose variables are huge
inline void soa_case(Src &src) {
    using A = char;
    using B = double;
    using C = Pod<64, 64>;
    using Cont = vecmem::edm::container<HugeFace, vt::vector<A>, vt::scalar<int>, vt::vector<B>, vt::vector<C>>;
    SZ cap = huge_count(src, src.pick({1, 8, 64})), size = cap;
    bool resizable = src.coin();
    if (resizable)
        size = static_cast<SZ>(src.draw(uint64_t(cap) + 1));
    Placer pl(src, 0, src.coin());
    int scalar = 0;
    vecmem::data::vector_view<char> sv(resizable ? sizeof(SZ) : 0u, resizable ? reinterpret_cast<char *>(&size) : nullptr);
    Cont::view view(cap, sv);
    uintptr_t a = pl.take(cap * sizeof(A), alignof(A)), b = pl.take(cap * sizeof(B), alignof(B)),
              c = pl.take(cap * sizeof(C), alignof(C));
    auto one = [&](auto *p) {
        using T = std::remove_pointer_t<decltype(p)>;
        return resizable ? vecmem::data::vector_view<T>(cap, &size, p) : vecmem::data::vector_view<T>(cap, p);
    };
    view.get<0>() = one(reinterpret_cast<A *>(a));
    view.get<1>() = &scalar;
    view.get<2>() = one(reinterpret_cast<B *>(b));
    view.get<3>() = one(reinterpret_cast<C *>(c));
    src.nontrivial();
    PBT_TRACE(src, "SoA container of capacity %u, size %u%s", cap, size, resizable ? ", resizable" : "");
    auto judge = [&](auto &dev) {
        PBT_CHECK(dev.size() == size && dev.capacity() == cap, "size %u capacity %u instead of %u, %u", dev.size(),
                  dev.capacity(), size, cap);
        judge_access(src, dev.template get<0>(), a, cap, size, static_cast<A *>(nullptr));
        judge_access(src, dev.template get<2>(), b, cap, size, static_cast<B *>(nullptr));
        judge_access(src, dev.template get<3>(), c, cap, size, static_cast<C *>(nullptr));
        if (size == 0)
            return;
        SZ i = some_index(src, size);
        auto elem = [&](auto &&p, const char *how) {
            PBT_CHECK(addr(p.template get<0>()) == a + i * sizeof(A) && addr(p.template get<1>()) == addr(scalar) &&
                          addr(p.template get<2>()) == b + i * sizeof(B) &&
                          addr(p.template get<3>()) == c + i * sizeof(C),
                      "%s: the proxy of element %u refers to something else", how, i);
        };
        elem(dev[i], "[]");
        elem(dev.at(i), "at");
        elem(std::as_const(dev)[i], "const []");
        elem(std::as_const(dev).at(i), "const at");
    };
    Cont::device dev(view);
    judge(dev);
    Cont::const_view cview(view);
    Cont::const_device cdev(cview);
    judge(cdev);
}

inline void any_soa_view(Src &src) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    soa_case(src);
}
inline void any_vector(Src &src) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    with_type(src, [&](auto t) { vector_case<decltype(t)>(src); });
}
inline void any_jagged_view(Src &src) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    with_type(src, [&](auto t) { jagged_case<decltype(t)>(src); });
}

}  // namespace hc
}  // namespace pbt
