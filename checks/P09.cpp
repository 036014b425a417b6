// Fixed-size arrays against a model: access paths, bounds checks, comparison, memory of the host array.
// check: lib=memory,utils
// assume: constructors do not throw (P26 looks at arrays of objects whose constructors do)
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/static_array.hpp>

#include <algorithm>
#include <memory>

#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P09";
const char *const rule =
    "random operations through every access path of a host array (length chosen at run time or compile "
    "time, 0..40), a static array (0, 1, 3 and 8) or device arrays on top of host data, compared with a "
    "std::vector of the same length; non-trivial: the array has at least 2 elements and was written at "
    "least twice";
const uint64_t quick_cases = 1250000;
const uint64_t thorough_cases = 15000000;

namespace {

template <typename T>
struct Model {
    std::vector<uint64_t> ref;
    std::size_t writes = 0;
};

/// Out of range indices, close to the end, far, and wrapping around
inline std::size_t bad_index(Src &src, std::size_t n, std::size_t elem) {
    switch (src.draw(5)) {
        case 0:
            return n;
        case 1:
            return n + 1 + src.draw(100);
        case 2:
            return SIZE_MAX - src.draw(3);
        case 3:
            return elem > 1 ? (SIZE_MAX / elem) + 1 + src.draw(3) : SIZE_MAX;
        default:
            return n + src.u64() % (SIZE_MAX - n);
    }
}

/// One read pass through all the paths (A may be const)
template <typename T, typename A>
void check_reads(Src &src, A &a, const T *base, const std::vector<uint64_t> &ref) {
    std::size_t n = ref.size();
    check_sticky();
    PBT_CHECK(a.size() == n && a.empty() == (n == 0), "size %zu, expected %zu", (std::size_t)a.size(), n);
    if (n > 0)
        PBT_CHECK(a.data() == base, "data() is not the first element");
    for (std::size_t i = 0; i < n; ++i) {
        PBT_CHECK(&a[i] == base + i, "element %zu is at the wrong place", i);
        PBT_CHECK(&a.at(i) == base + i, "at(%zu) is at the wrong place", i);
        PBT_CHECK(val(a[i]) == ref[i], "element %zu has the wrong value", i);
    }
    auto at = [base](std::size_t i) { return base + i; };
    switch (src.draw(4)) {
        case 0:
            walk(src, a.begin(), a.end(), n, false, at, "begin..end");
            break;
        case 1:
            walk(src, a.cbegin(), a.cend(), n, false, at, "cbegin..cend");
            break;
        case 2:
            walk(src, a.rbegin(), a.rend(), n, true, at, "rbegin..rend");
            break;
        default:
            walk(src, a.crbegin(), a.crend(), n, true, at, "crbegin..crend");
    }
    check_sticky();
}

template <typename A>
void check_front_back(A &a, const void *base, std::size_t n) {
    PBT_CHECK((const void *)&a.front() == base, "front() is not the first element");
    PBT_CHECK((const void *)&a.back() == (const void *)(&a.front() + (n - 1)), "back() is not the last element");
}

/// @returns the index written to
template <typename T, typename A>
void write(Src &src, A &a, std::vector<uint64_t> &ref) {
    std::size_t n = ref.size();
    if (n == 0)
        return;
    std::size_t i = src.draw(n);
    uint64_t x = src.draw(src.coin() ? 10 : 60000);
    const T t = Conv<T>::make(x);
    int how = src.draw(8);
    PBT_TRACE(src, "write element %zu (way %d)", i, how);
    switch (how) {
        case 0:
            a[i] = t;
            break;
        case 1:
            a.at(i) = t;
            break;
        case 2:
            *(a.begin() + i) = t;
            break;
        case 3:
            *(a.end() - (n - i)) = t;
            break;
        case 4:
            *(a.rbegin() + (n - 1 - i)) = t;
            break;
        case 5:
            a.rend()[-(std::ptrdiff_t)(i + 1)] = t;
            break;
        case 6:
            a.data()[i] = t;
            break;
        default:
            if (src.coin()) {
                i = 0;
                a.front() = t;
            } else {
                i = n - 1;
                a.back() = t;
            }
    }
    ref[i] = norm<T>(x);
}

template <typename T>
void lifetimes(std::size_t n) {
    check_sticky();
    if (Conv<T>::tracked)
        PBT_CHECK(Lifetimes::get().n_alive == (int64_t)n, "%ld elements alive, %zu in the arrays",
                  (long)Lifetimes::get().n_alive, n);
}

/// Everything about a host array
template <typename T, typename A>
void host_array(Src &src, ModelUpstream &up, A &a, std::size_t n) {
    const A &c = a;
    lifetimes<T>(n);
    const T *base = a.data();
    if (n > 0) {
        PBT_CHECK(up.contains(base, n * sizeof(T)), "the elements are not inside memory of the resource");
        PBT_CHECK(reinterpret_cast<uintptr_t>(base) % alignof(T) == 0, "elements at %p not aligned to %zu", (const void *)base,
                  alignof(T));
    }
    std::size_t blocks = up.live().size();
    std::vector<uint64_t> ref;
    if (Conv<T>::tracked) {
        ref.assign(n, zero<T>());
    } else {
        const T t = Conv<T>::make(3);
        a.fill(t);
        ref.assign(n, norm<T>(3));
    }
    check_reads<T>(src, a, base, ref);
    int nops = 1 + src.draw(10), writes = 0;
    for (int op = 0; op < nops; ++op) {
        switch (src.draw(6)) {
            case 0: {
                uint64_t x = src.draw(60000);
                PBT_TRACE(src, "fill");
                const T t = Conv<T>::make(x);
                a.fill(t);
                ref.assign(n, norm<T>(x));
                ++writes;
                break;
            }
            case 1: {
                std::size_t i = bad_index(src, n, sizeof(T));
                PBT_TRACE(src, "at(%zu)", i);
                PBT_CHECK(throws<std::out_of_range>([&] { (void)a.at(i); }), "at(%zu) of %zu does not throw", i, n);
                PBT_CHECK(throws<std::out_of_range>([&] { (void)c.at(i); }), "at(%zu) const of %zu does not throw", i, n);
                break;
            }
            case 2:
                if (n == 0) {
                    PBT_CHECK(throws<std::out_of_range>([&] { (void)a.front(); }), "front() of an empty array");
                    PBT_CHECK(throws<std::out_of_range>([&] { (void)c.front(); }), "front() const of an empty array");
                    PBT_CHECK(throws<std::out_of_range>([&] { (void)a.back(); }), "back() of an empty array");
                    PBT_CHECK(throws<std::out_of_range>([&] { (void)c.back(); }), "back() const of an empty array");
                } else {
                    check_front_back(a, base, n);
                    check_front_back(c, base, n);
                }
                break;
            case 3: {
                // through a view
                auto v = vecmem::get_data(a);
                auto cv = vecmem::get_data(c);
                PBT_CHECK(v.ptr() == base && v.size() == n && v.capacity() == n, "view of the array");
                PBT_CHECK(cv.ptr() == base && cv.size() == n && cv.capacity() == n, "const view of the array");
                break;
            }
            default:
                write<T>(src, a, ref);
                ++writes;
        }
        if (src.coin())
            check_reads<T>(src, a, base, ref);
        else
            check_reads<T>(src, c, base, ref);
        PBT_CHECK(up.live().size() == blocks, "the array allocated something");
    }
    if (n >= 2 && writes >= 2)
        src.nontrivial();
    lifetimes<T>(n);
}

template <typename T>
void runtime_array(Src &src, ModelUpstream &up) {
    std::size_t n = src.chance(1, 8) ? 0 : sized(src, thorough() ? 300 : 40, 5000);
    PBT_TRACE(src, "array<T>(%zu), %zu bytes per element", n, sizeof(T));
    vecmem::array<T> a(up, n);
    host_array<T>(src, up, a, n);
}
template <typename T, std::size_t N>
void fixed_array(Src &src, ModelUpstream &up) {
    PBT_TRACE(src, "array<T, %zu>, %zu bytes per element", N, sizeof(T));
    vecmem::array<T, N> a(up);
    host_array<T>(src, up, a, N);
}

template <typename T, std::size_t N>
typename std::enable_if<(N > 0)>::type static_parts(vecmem::static_array<T, N> &a, const void *base) {
    const auto &c = a;
    check_front_back(a, base, N);
    check_front_back(c, base, N);
    PBT_CHECK((const void *)&a.template get<0>() == base && (const void *)&c.template get<0>() == base, "get<0>");
    PBT_CHECK(&a.template get<N - 1>() == &a[N - 1] && &c.template get<N - 1>() == &c[N - 1], "get<N-1>");
    PBT_CHECK(&vecmem::get<N / 2>(a) == &a[N / 2] && &vecmem::get<N / 2>(c) == &c[N / 2], "get<N/2>");
}
template <typename T>
void static_parts(vecmem::static_array<T, 0> &, const void *) {}

template <typename T, std::size_t N>
void static_array(Src &src) {
    using A = vecmem::static_array<T, N>;
    PBT_TRACE(src, "static_array<T, %zu>, %zu bytes per element", N, sizeof(T));
    // on the heap, to notice accesses outside
    std::unique_ptr<A> pa(new A{}), pb(new A{});
    A *as[2] = {pa.get(), pb.get()};
    std::vector<uint64_t> refs[2];
    refs[0].assign(N, zero<T>());
    refs[1].assign(N, zero<T>());
    int nops = 1 + src.draw(12), writes = 0;
    for (int op = 0; op < nops; ++op) {
        int k = src.draw(2);
        A &a = *as[k];
        const A &c = a;
        auto &ref = refs[k];
        const T *base = N > 0 ? &a[0] : nullptr;
        switch (src.draw(7)) {
            case 0: {
                uint64_t x = src.draw(src.coin() ? 10 : 60000);
                PBT_TRACE(src, "fill %d", k);
                const T t = Conv<T>::make(x);
                a.fill(t);
                ref.assign(N, norm<T>(x));
                ++writes;
                break;
            }
            case 1: {
                std::size_t i = bad_index(src, N, sizeof(T));
                PBT_TRACE(src, "at(%zu)", i);
                PBT_CHECK(throws<std::out_of_range>([&] { (void)a.at(i); }), "at(%zu) of %zu does not throw", i, N);
                PBT_CHECK(throws<std::out_of_range>([&] { (void)c.at(i); }), "at(%zu) const of %zu does not throw", i, N);
                break;
            }
            case 2: {
                PBT_TRACE(src, "assign %d <- %d", k, 1 - k);
                a = *as[1 - k];
                ref = refs[1 - k];
                break;
            }
            case 3: {
                PBT_TRACE(src, "copy %d", k);
                A copy(c);
                check_reads<T>(src, copy, copy.data(), ref);
                bool same = std::all_of(ref.begin(), ref.end(), reflexive<T>);
                PBT_CHECK((copy == c) == same && (copy != c) == !same, "a copy is not equal");
                break;
            }
            default:
                if constexpr (N > 0)
                    write<T>(src, a, ref);
                ++writes;
        }
        PBT_CHECK(a.max_size() == N, "max_size");
        if (N > 0) {
            const char *d = reinterpret_cast<const char *>(a.data()), *b = reinterpret_cast<const char *>(&a);
            PBT_CHECK(d >= b && d + N * sizeof(T) <= b + sizeof(A), "the elements are outside of the array");
        }
        static_parts(a, base);
        if (src.coin())
            check_reads<T>(src, a, base, ref);
        else
            check_reads<T>(src, c, base, ref);
        check_reads<T>(src, *as[1 - k], N > 0 ? &(*as[1 - k])[0] : nullptr, refs[1 - k]);
        bool eq = refs[0] == refs[1] && std::all_of(refs[0].begin(), refs[0].end(), reflexive<T>);
        const A &x = *as[0], &y = *as[1];
        PBT_CHECK((x == y) == eq && (x != y) == !eq, "comparison of the arrays is wrong (equal: %d)", eq);
        PBT_CHECK((y == x) == eq && (y != x) == !eq, "comparison of the arrays is not symmetric");
        if (!eq)
            src.label("unequal");
        lifetimes<T>(2 * N);
    }
    if (N >= 2 && writes >= 2)
        src.nontrivial();
}

template <typename T, std::size_t N>
void device_array(Src &src, ModelUpstream &up) {
    std::size_t n = N + (src.coin() ? 0 : src.draw(4));
    PBT_TRACE(src, "device_array<T, %zu> on %zu elements, %zu bytes per element", N, n, sizeof(T));
    vecmem::array<T> host(up, n);
    std::vector<uint64_t> ref;
    for (std::size_t i = 0; i < n; ++i) {
        uint64_t x = src.draw(1000);
        host[i] = Conv<T>::make(x);
        ref.push_back(norm<T>(x));
    }
    auto view = vecmem::get_data(host);
    vecmem::data::vector_view<const T> cview(view);
    using D = vecmem::device_array<T, N>;
    using CD = vecmem::device_array<const T, N>;
    D d(view);
    D d2(d);
    vecmem::array<T> other_host(up, N);
    D d3(vecmem::get_data(other_host));
    d3 = d2;
    CD c1(view), c2(cview), c3(c1);
    std::vector<D *> ds{&d, &d2, &d3};
    std::vector<CD *> cs{&c1, &c2, &c3};
    int nops = 1 + src.draw(8), writes = 0;
    for (int op = 0; op < nops; ++op) {
        D &a = *src.pick(ds);
        PBT_CHECK(a.max_size() == N, "max_size");
        std::vector<uint64_t> mine(ref.begin(), ref.begin() + N);
        if constexpr (N > 0) {
            if (src.chance(3, 4)) {
                write<T>(src, a, mine);
                ++writes;
            } else {
                std::size_t i = src.draw(N);
                uint64_t x = src.draw(1000);
                host[i] = Conv<T>::make(x);
                mine[i] = norm<T>(x);
            }
            const D &ca = a;
            check_front_back(a, host.data(), N);
            check_front_back(ca, host.data(), N);
        }
        std::copy(mine.begin(), mine.end(), ref.begin());
        D &b = *src.pick(ds);
        if (src.coin()) {
            D &from = *src.pick(ds);
            PBT_CHECK(&(b = from) == &b, "assignment returns something else");
        }
        const D &cb = b;
        check_reads<T>(src, b, host.data(), mine);
        check_reads<T>(src, cb, host.data(), mine);
        check_reads<T>(src, *src.pick(cs), host.data(), mine);
        check_reads<T>(src, host, host.data(), ref);
    }
    if (N >= 2 && writes >= 2)
        src.nontrivial();
}

template <typename T>
void with_type(Src &src) {
    Lifetimes::get().reset();
    {
        ModelUpstream up(&src, 0, ModelUpstream::Place::Separated);
        if (src.chance(1, 60)) {
            src.label("large size");
            if (src.coin())
                fixed_array<T, 300>(src, up);
            else if (src.coin())
                static_array<T, 300>(src);
            else
                device_array<T, 300>(src, up);
        } else
        switch (src.draw(11)) {
            case 0:
            case 1:
                runtime_array<T>(src, up);
                break;
            case 2:
                fixed_array<T, 0>(src, up);
                break;
            case 3:
                fixed_array<T, 5>(src, up);
                break;
            case 4:
                static_array<T, 0>(src);
                break;
            case 5:
                static_array<T, 1>(src);
                break;
            case 6:
                static_array<T, 3>(src);
                break;
            case 7:
                static_array<T, 8>(src);
                break;
            case 8:
                device_array<T, 0>(src, up);
                break;
            case 9:
                device_array<T, 1>(src, up);
                break;
            default:
                device_array<T, 6>(src, up);
        }
        lifetimes<T>(0);
        PBT_CHECK(up.live().size() == 0, "%zu blocks were not given back", up.live().size());
    }
    lifetimes<T>(0);
}
}  // namespace

void run(Src &src) {
    switch (src.draw(7)) {
        case 0:
            return with_type<int>(src);
        case 6:
            return with_type<Loose>(src);
        case 1:
            return with_type<char>(src);
        case 2:
            return with_type<Pod<7, 1>>(src);
        case 3:
            return with_type<Pod<64, 64>>(src);
        case 4:
            return with_type<double>(src);
        default:
            return with_type<Tracked<32, 9>>(src);
    }
}
}  // namespace harness
