// Tuples of generated values against the values they were built from, along random chains of copies,
// conversions, concatenations, assignments and writes.
// check: lib=core opt=-O1
#include <vecmem/utils/tuple.hpp>

#include <array>
#include <memory>
#include <string>
#include <tuple>

#include "types.hpp"

using namespace pbt;

namespace pbt {
template <>
struct Conv<std::string> {
    static std::string make(uint64_t v) { return std::to_string(v) + std::string(v % 40, 'x'); }
    static uint64_t get(const std::string &s) {
        uint64_t h = 1469598103934665603ull;
        for (char c : s)
            h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
        return h;
    }
    static constexpr bool tracked = false;
};
template <>
struct Conv<long> : ConvArith<long> {};
template <>
struct Conv<bool> {
    static bool make(uint64_t v) { return v & 1; }
    static uint64_t get(bool b) { return b; }
    static constexpr bool tracked = false;
};
}  // namespace pbt

namespace harness {
const char *const id = "P13";
const char *const rule =
    "17 tuple types of 1 to 8 elements (numbers, strings, objects that report lifetime errors, over-aligned data, "
    "nested tuples, references, constants, move-only values), generated values, random chains of building, copying, "
    "converting, concatenating, assigning, tying and writing; non-trivial: at least 3 steps on a tuple of at least "
    "2 elements with pairwise different values";
const uint64_t quick_cases = 4000000;
const uint64_t thorough_cases = 48000000;

namespace {
using vecmem::tuple;
using Obj = Tracked<8, 3>;
using Wide = Tracked<32, 40>;

template <typename... Ts>
struct Shape {
    using T = tuple<Ts...>;
    static constexpr std::size_t N = sizeof...(Ts);
    using All = std::index_sequence_for<Ts...>;
    template <std::size_t I>
    using E = std::tuple_element_t<I, std::tuple<Ts...>>;
    using Vals = std::array<uint64_t, N>;

    template <typename F, std::size_t... I>
    static void each(F f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>()), ...);
    }
    template <typename X>
    static void check(X &t, const Vals &v, const char *what) {
        const X &c = t;
        each(
            [&](auto ic) {
                constexpr std::size_t I = ic;
                PBT_CHECK(Conv<E<I>>::get(vecmem::get<I>(t)) == norm<E<I>>(v[I]), "%s: element %zu has the wrong value",
                          what, I);
                PBT_CHECK(Conv<E<I>>::get(vecmem::get<I>(c)) == norm<E<I>>(v[I]),
                          "%s: constant element %zu has the wrong value", what, I);
                static_assert(std::is_same_v<vecmem::tuple_element_t<I, tuple<Ts...>>, E<I>>);
            },
            All{});
    }
    template <typename X, std::size_t... I>
    static void write(X &t, std::size_t i, uint64_t x, std::index_sequence<I...>) {
        ((I == i ? (void)(vecmem::get<I>(t) = Conv<E<I>>::make(x)) : (void)0), ...);
    }
    template <std::size_t... I>
    static T make(Src &src, const Vals &v, std::index_sequence<I...>) {
        switch (src.draw(5)) {
            case 0:
                return vecmem::make_tuple(Conv<Ts>::make(v[I])...);
            case 1:
                return T(Conv<Ts>::make(v[I])...);
            case 2: {
                // from named objects
                std::tuple<Ts...> s{Conv<Ts>::make(v[I])...};
                T t(std::get<I>(s)...);
                bool same = ((Conv<Ts>::get(std::get<I>(s)) == norm<Ts>(v[I])) && ...);
                PBT_CHECK(same, "making a tuple changes what it is made from");
                return t;
            }
            case 3: {
                const std::tuple<Ts...> s{Conv<Ts>::make(v[I])...};
                return vecmem::make_tuple(std::get<I>(s)...);
            }
            default: {
                T t;
                each([&](auto ic) { vecmem::get<ic>(t) = Conv<E<ic>>::make(v[ic]); }, All{});
                return t;
            }
        }
    }
    /// Head and tail put together
    template <std::size_t... I>
    static T concat(Src &src, const Vals &v, std::index_sequence<0, I...>) {
        auto head = Conv<E<0>>::make(v[0]);
        if (src.coin()) {
            T t(head, tuple<E<I>...>(Conv<E<I>>::make(v[I])...));
            PBT_CHECK(Conv<E<0>>::get(head) == norm<E<0>>(v[0]), "concatenation changes the head");
            return t;
        }
        tuple<E<I>...> tail{Conv<E<I>>::make(v[I])...};
        return T(std::move(head), std::move(tail));
    }
    template <std::size_t... I>
    static void tied(Src &src, T &t, Vals &v, std::index_sequence<I...>) {
        // references to separate objects
        std::tuple<Ts...> s{Conv<Ts>::make(v[I])...};
        tuple<Ts &...> r = vecmem::tie(std::get<I>(s)...);
        PBT_CHECK(((&vecmem::get<I>(r) == &std::get<I>(s)) && ...), "tie refers to something else");
        tuple<Ts &...> r2(r);
        const auto &cr = r2;
        PBT_CHECK(((&vecmem::get<I>(r2) == &std::get<I>(s)) && ...) && ((&vecmem::get<I>(cr) == &std::get<I>(s)) && ...),
                  "a copy of a tuple of references refers to something else");
        check(r, v, "tied tuple");
        std::size_t i = src.draw(N);
        uint64_t x = src.draw(20000);
        write(r2, i, x, All{});
        v[i] = x;
        PBT_CHECK(((Conv<Ts>::get(std::get<I>(s)) == norm<Ts>(v[I])) && ...),
                  "writing through a tied tuple does not reach the original");
        check(r, v, "tied tuple after a write");
        // values from references
        T back(r);
        check(back, v, "tuple converted from a tuple of references");
        T assigned;
        assigned = r;
        check(assigned, v, "tuple assigned from a tuple of references");
        t = back;
        // references into the tuple itself
        tuple<Ts &...> self = vecmem::tie(vecmem::get<I>(t)...);
        PBT_CHECK(((&vecmem::get<I>(self) == &vecmem::get<I>(t)) && ...), "tie of the elements refers to something else");
        tuple<const Ts &...> constant(vecmem::get<I>(t)...);
        PBT_CHECK(((&vecmem::get<I>(constant) == &vecmem::get<I>(t)) && ...), "constant references refer to copies");
        // constant elements
        tuple<const Ts...> frozen(t);
        check(frozen, v, "tuple of constants");
        T thawed(frozen);
        check(thawed, v, "tuple converted from a tuple of constants");
    }
    template <std::size_t... I>
    static bool distinct(T &t, std::index_sequence<I...>) {
        // elements do not share memory
        std::array<std::pair<const char *, std::size_t>, N> a{
            std::make_pair(reinterpret_cast<const char *>(&vecmem::get<I>(t)), sizeof(Ts))...};
        const char *b = reinterpret_cast<const char *>(&t);
        for (std::size_t i = 0; i < N; ++i) {
            if (a[i].first < b || a[i].first + a[i].second > b + sizeof(T))
                return false;
            for (std::size_t j = 0; j < i; ++j)
                if (a[i].first < a[j].first + a[j].second && a[j].first < a[i].first + a[i].second)
                    return false;
        }
        return true;
    }

    static void run(Src &src) {
        Vals v;
        for (auto &x : v)
            x = src.draw(20000);
        T t = make(src, v, All{});
        check(t, v, "new tuple");
        PBT_CHECK(distinct(t, All{}), "elements of a tuple share memory");
        T other;
        Vals w;
        bool have = false;
        int steps = 1 + static_cast<int>(pbt::sized(src, 8, 300, 150));
        for (int s = 0; s < steps; ++s) {
            switch (src.draw(9)) {
                case 0: {
                    PBT_TRACE(src, "copy");
                    T c(t);
                    check(t, v, "the original of a copy");
                    check(c, v, "copy");
                    // independence
                    std::size_t i = src.draw(N);
                    Vals u = v;
                    u[i] = src.draw(20000);
                    write(c, i, u[i], All{});
                    check(c, u, "written copy");
                    check(t, v, "the original of a written copy");
                    break;
                }
                case 1: {
                    PBT_TRACE(src, "copy of a constant");
                    const T &k = t;
                    T c(k);
                    check(c, v, "copy of a constant");
                    T c2 = k;
                    other = c2;
                    w = v;
                    have = true;
                    check(other, w, "assigned tuple");
                    check(c2, w, "the source of an assignment");
                    break;
                }
                case 2: {
                    PBT_TRACE(src, "move");
                    T c(std::move(t));
                    check(c, v, "moved tuple");
                    t = std::move(c);
                    check(t, v, "move assigned tuple");
                    break;
                }
                case 3: {
                    std::size_t i = src.draw(N);
                    v[i] = src.draw(20000);
                    PBT_TRACE(src, "write element %zu", i);
                    write(t, i, v[i], All{});
                    break;
                }
                case 4:
                    if constexpr (N >= 2) {
                        PBT_TRACE(src, "concatenate");
                        for (auto &x : v)
                            x = src.draw(20000);
                        t = concat(src, v, All{});
                    }
                    break;
                case 5:
                    PBT_TRACE(src, "tie");
                    tied(src, t, v, All{});
                    break;
                case 6:
                    PBT_TRACE(src, "make");
                    for (auto &x : v)
                        x = src.draw(20000);
                    t = make(src, v, All{});
                    break;
                default: {
                    PBT_TRACE(src, "nest");
                    tuple<T> one(t);
                    tuple<T> one2(one);
                    const auto &k = one2;
                    tuple<T> one3(k);
                    check(vecmem::get<0>(one3), v, "nested tuple");
                    tuple<int, T, T> three(7, t, have ? other : t);
                    tuple<int, T, T> three2(three);
                    PBT_CHECK(vecmem::get<0>(three2) == 7, "element before nested tuples");
                    check(vecmem::get<1>(three2), v, "nested tuple");
                    check(vecmem::get<2>(three2), have ? w : v, "second nested tuple");
                    check(vecmem::get<1>(three), v, "the original of a nested tuple");
                    auto made = vecmem::make_tuple(t, 3, t);
                    check(vecmem::get<0>(made), v, "nested tuple");
                    check(vecmem::get<2>(made), v, "nested tuple");
                }
            }
            check(t, v, "tuple");
            if (have)
                check(other, w, "the other tuple");
            check_sticky();
        }
        bool different = N >= 2;
        for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < i; ++j)
                different = different && v[i] != v[j];
        if (different && steps >= 3)
            src.nontrivial();
    }
};

/// Conversions of the element types
template <std::size_t... I, typename A, typename B>
void convert(const A &a, const B &b, std::index_sequence<I...>, const char *what) {
    PBT_CHECK(((static_cast<double>(vecmem::get<I>(a)) == static_cast<double>(vecmem::get<I>(b))) && ...), "%s", what);
}
void conversions(Src &src) {
    int a = src.draw(100), d = src.draw(100);
    short b = src.draw(100);
    float c = src.draw(1000);
    tuple<int, short, float, int> t(a, b, c, d);
    tuple<double, int, double, long> u(t);
    using S = std::make_index_sequence<4>;
    convert(t, u, S{}, "converted tuple");
    tuple<long, long, long, long> l;
    l = t;
    convert(t, l, S{}, "tuple assigned with a conversion");
    PBT_CHECK(vecmem::get<0>(t) == a && vecmem::get<1>(t) == b && vecmem::get<2>(t) == c && vecmem::get<3>(t) == d,
              "the original of a conversion has changed");
    tuple<double, int, double, long> cat(c, tuple<short, float, int>(b, c, d));
    PBT_CHECK(vecmem::get<0>(cat) == c && vecmem::get<1>(cat) == b && vecmem::get<2>(cat) == c && vecmem::get<3>(cat) == d,
              "concatenated tuple with conversions");
    tuple<int &, short &, float &, int &> r = vecmem::tie(a, b, c, d);
    tuple<double, double, double, double> fr(r);
    vecmem::get<1>(r) = 5;
    vecmem::get<3>(r) = vecmem::get<0>(r) + 1;
    PBT_CHECK(b == 5 && d == a + 1, "tied objects were not changed");
    PBT_CHECK(vecmem::get<0>(fr) == vecmem::get<0>(t) && vecmem::get<1>(fr) == vecmem::get<1>(t), "values from references");
    std::string s1 = Conv<std::string>::make(src.draw(1000));
    std::string s2 = s1;
    tuple<std::string, int> st(s1, a), st2(std::move(s2), a), st3("text", a);
    PBT_CHECK(vecmem::get<0>(st) == s1 && vecmem::get<0>(st2) == s1 && vecmem::get<0>(st3) == "text",
              "strings in a tuple");
    src.nontrivial();
}
void move_only(Src &src) {
    using P = std::unique_ptr<int>;
    int x = src.draw(1000), y = src.draw(1000), z = src.draw(1000);
    auto p = std::make_unique<int>(x), q = std::make_unique<int>(y);
    int *pp = p.get(), *qp = q.get();
    tuple<P, int, P> t(std::move(p), z, std::move(q));
    tuple<P, int, P> u(std::move(t));
    PBT_CHECK(vecmem::get<0>(u).get() == pp && vecmem::get<2>(u).get() == qp && vecmem::get<1>(u) == z,
              "move-only elements");
    tuple<P, int, P> w;
    w = std::move(u);
    PBT_CHECK(vecmem::get<0>(w).get() == pp && vecmem::get<2>(w).get() == qp && *pp == x && *qp == y,
              "move assigned move-only elements");
    tuple<int, P, int, P> cat(y, std::move(w));
    PBT_CHECK(vecmem::get<0>(cat) == y && vecmem::get<1>(cat).get() == pp && vecmem::get<2>(cat) == z &&
                  vecmem::get<3>(cat).get() == qp,
              "concatenation of move-only elements");
    auto made = vecmem::make_tuple(std::make_unique<int>(x), y);
    PBT_CHECK(*vecmem::get<0>(made) == x && vecmem::get<1>(made) == y, "make_tuple of a move-only value");
    if (x != y && y != z)
        src.nontrivial();
}
}  // namespace

void run(Src &src) {
    Lifetimes::get().reset();
    switch (src.draw(17)) {
        case 0:
            Shape<int>::run(src);
            break;
        case 1:
            Shape<int, int>::run(src);
            break;
        case 2:
            Shape<char, double, int>::run(src);
            break;
        case 3:
            Shape<std::string, int, std::string>::run(src);
            break;
        case 4:
            Shape<Obj, Obj>::run(src);
            break;
        case 5:
            Shape<Obj>::run(src);
            break;
        case 6:
            Shape<char, Wide, short, Obj>::run(src);
            break;
        case 7:
            Shape<Pod<7, 1>, Pod<64, 64>, char>::run(src);
            break;
        case 8:
            Shape<int, int, int, int, int, int, int, int>::run(src);
            break;
        case 9:
            Shape<char, std::string, double, Obj, float, uint64_t, bool>::run(src);
            break;
        case 10:
            Shape<std::string>::run(src);
            break;
        case 11:
            Shape<bool, bool, bool>::run(src);
            break;
        case 12:
            Shape<uint64_t, char, uint64_t, char>::run(src);
            break;
        case 13:
        case 14:
            conversions(src);
            break;
        default:
            move_only(src);
    }
    check_sticky();
    PBT_CHECK(Lifetimes::get().n_alive == 0, "%ld objects were never destroyed", (long)Lifetimes::get().n_alive);
}
}  // namespace harness
