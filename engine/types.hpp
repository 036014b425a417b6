// Element types for the container checks, and conversions from and to numbers.
#pragma once
#include <array>
#include <cstring>

#include "tracked.hpp"

namespace pbt {

/// Plain data of an arbitrary size and alignment
template <std::size_t N, std::size_t A>
struct alignas(A) Pod {
    unsigned char b[N];
    bool operator==(const Pod &o) const { return memcmp(b, o.b, N) == 0; }
    bool operator!=(const Pod &o) const { return !(*this == o); }
};
struct Pair {
    float x;
    short y;
};

template <typename T>
struct Conv {
    static T make(uint64_t v) { return T(v); }
    static uint64_t get(const T &t) { return t.value(); }
    static constexpr bool tracked = true;
};
template <typename T>
struct ConvArith {
    static T make(uint64_t v) { return static_cast<T>(static_cast<T>(v % 30000)); }
    static uint64_t get(const T &t) { return static_cast<uint64_t>(static_cast<int64_t>(t)); }
    static constexpr bool tracked = false;
};
template <>
struct Conv<char> : ConvArith<char> {
    static char make(uint64_t v) { return static_cast<char>(v % 127); }
};
template <>
struct Conv<unsigned char> : ConvArith<unsigned char> {};
template <>
struct Conv<short> : ConvArith<short> {};
template <>
struct Conv<int> : ConvArith<int> {};
template <>
struct Conv<unsigned int> : ConvArith<unsigned int> {};
template <>
struct Conv<float> : ConvArith<float> {};
template <>
struct Conv<double> : ConvArith<double> {};
template <>
struct Conv<uint64_t> {
    static uint64_t make(uint64_t v) { return v * 0x9e3779b97f4a7c15ull; }
    static uint64_t get(const uint64_t &t) { return t; }
    static constexpr bool tracked = false;
};
template <std::size_t N, std::size_t A>
struct Conv<Pod<N, A>> {
    using T = Pod<N, A>;
    static T make(uint64_t v) {
        T t;
        memset(&t, 0, sizeof t);
        for (std::size_t i = 0; i < N; ++i)
            t.b[i] = static_cast<unsigned char>((v >> (8 * (i % 8))) + 3 * i);
        if (v == 0)
            memset(&t, 0, sizeof t);
        return t;
    }
    static uint64_t get(const T &t) {
        uint64_t h = 1469598103934665603ull;
        for (std::size_t i = 0; i < N; ++i)
            h = (h ^ t.b[i]) * 1099511628211ull;
        return h;
    }
    static constexpr bool tracked = false;
};
template <>
struct Conv<Pair> {
    static Pair make(uint64_t v) { return Pair{static_cast<float>(v % 1000), static_cast<short>(v % 3000)}; }
    static uint64_t get(const Pair &t) {
        return static_cast<uint64_t>(static_cast<int64_t>(t.x)) * 100000 + static_cast<uint64_t>(static_cast<int64_t>(t.y));
    }
    static constexpr bool tracked = false;
};
/// Trivially copyable, with an equality of its own: equal elements can have different bytes, and (as with NaN) some
/// are not even equal to themselves
struct Loose {
    short key;
    int noise;
    bool operator==(const Loose &o) const { return key == o.key && key % 16 != 7; }
    bool operator!=(const Loose &o) const { return !(*this == o); }
};
template <>
struct Conv<Loose> {
    static Loose make(uint64_t v) {
        static int noise = 0;
        return Loose{static_cast<short>(v % 30000), ++noise};
    }
    static uint64_t get(const Loose &t) { return static_cast<uint64_t>(t.key); }
    static constexpr bool tracked = false;
};
/// Is the element with this number equal to itself?
template <typename T>
bool reflexive(uint64_t v) {
    return !std::is_same<T, Loose>::value || v % 16 != 7;
}
/// The number behind make(v)
template <typename T>
uint64_t norm(uint64_t v) {
    return Conv<T>::get(Conv<T>::make(v));
}
/// The number behind a value-initialised T
template <typename T>
uint64_t zero() {
    return Conv<T>::get(T());
}
template <typename T>
uint64_t val(const T &t) {
    return Conv<T>::get(t);
}

/// Random walk with an iterator over n elements. @c ok(deref, i) tells whether something that the iterator
/// (or its subscript operator) refers to is element i; @c arrow(it, i) the same for its -> operator.
/// @param rev walks from the back
template <typename It, typename Ok, typename Arrow>
void walk_by(Src &src, It begin, It end, std::size_t n, bool rev, Ok ok, Arrow arrow, const char *what) {
    auto idx = [&](std::size_t i) { return rev ? n - 1 - i : i; };
    // full pass
    std::size_t i = 0;
    for (It it = begin; it != end; ++it, ++i) {
        PBT_CHECK(i < n, "%s: iteration goes past the end", what);
        PBT_CHECK(ok(*it, idx(i)), "%s: iterator at %zu refers to the wrong element", what, i);
        PBT_CHECK(arrow(it, idx(i)), "%s: the -> operator at %zu refers to the wrong element", what, i);
    }
    PBT_CHECK(i == n, "%s: iteration ends after %zu of %zu elements", what, i, n);
    PBT_CHECK((begin == end) == (n == 0), "%s: begin and end compare wrongly", what);
    if (n == 0)
        return;
    It it = begin;
    std::ptrdiff_t p = 0, N = static_cast<std::ptrdiff_t>(n);
    int steps = src.draw(6);
    for (int s = 0; s < steps; ++s) {
        std::ptrdiff_t to = static_cast<std::ptrdiff_t>(src.draw(n + 1));
        switch (src.draw(8)) {
            case 0:
                PBT_CHECK(&(it += to - p) == &it, "%s: += does not return the iterator", what);
                p = to;
                break;
            case 1:
                PBT_CHECK(&(it -= p - to) == &it, "%s: -= does not return the iterator", what);
                p = to;
                break;
            case 2: {
                It next = it + (to - p);
                if (p < N)
                    PBT_CHECK(ok(*it, idx(p)), "%s: + changes the iterator", what);
                it = next;
                p = to;
                break;
            }
            case 3: {
                It next = it - (p - to);
                if (p < N)
                    PBT_CHECK(ok(*it, idx(p)), "%s: - changes the iterator", what);
                it = next;
                p = to;
                break;
            }
            case 4:
                if (p < N) {
                    It old = it++;
                    PBT_CHECK(ok(*old, idx(p)), "%s: post-increment", what);
                    ++p;
                }
                break;
            case 5:
                if (p > 0) {
                    It old = it--;
                    if (p < N)
                        PBT_CHECK(ok(*old, idx(p)), "%s: post-decrement", what);
                    --p;
                }
                break;
            case 6: {
                It copy(it);
                PBT_CHECK(copy == it && !(copy != it), "%s: a copy of the iterator is not equal to it", what);
                It assigned = begin;
                assigned = it;
                it = assigned;
                It &self = it;
                PBT_CHECK(&(it = self) == &it, "%s: assignment does not return the iterator", what);
                break;
            }
            default:
                if (to > p)
                    for (; p < to; ++p)
                        ++it;
                else
                    for (; p > to; --p)
                        --it;
        }
        if (p < N)
            PBT_CHECK(ok(*it, idx(p)), "%s: iterator moved to %ld refers to the wrong element", what, (long)p);
        std::ptrdiff_t k = static_cast<std::ptrdiff_t>(src.draw(n));
        PBT_CHECK(ok(it[k - p], idx(k)), "%s: subscript %ld from %ld refers to the wrong element", what,
                  (long)(k - p), (long)p);
        PBT_CHECK((it == end) == (p == N) && (it != end) == (p != N) && (it == begin) == (p == 0),
                  "%s: comparison at %ld of %ld", what, (long)p, (long)N);
    }
}
/// The same for elements that live in memory, element i at the address at(i)
template <typename It, typename At>
void walk(Src &src, It begin, It end, std::size_t n, bool rev, At at, const char *what) {
    auto ok = [&](auto &e, std::size_t i) { return &e == at(i); };
    auto arrow = [&](const It &it, std::size_t i) {
        if constexpr (std::is_pointer<It>::value)
            return true;
        else
            return it.operator->() == at(i);
    };
    walk_by(src, begin, end, n, rev, ok, arrow, what);
}

}  // namespace pbt
