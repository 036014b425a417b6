// Static vectors against a model: operations, iterators, lifetimes, storage inside the object.
// check: lib=memory,utils
// assume: operations respect the capacity (it is a documented precondition)
// assume: constructors do not throw while a static vector runs them
#include <vecmem/containers/static_vector.hpp>

#include <list>

#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P08";
const char *const rule =
    "random operation sequences on up to three static vectors of one type (capacities 0, 1, 3, 8 and "
    "33; element types with alignments 1..64, with and without lifetimes, and self-referencing ones) "
    "compared with std::vector; non-trivial: at least 5 modifications including an insertion or "
    "removal that is not at the end";
const uint64_t quick_cases = 3000000;
const uint64_t thorough_cases = 36000000;

namespace {

template <typename T, std::size_t N>
struct Test {
    using V = vecmem::static_vector<T, N>;
    Src &src;
    ModelUpstream up;
    struct Obj {
        V *v = nullptr;
        std::vector<uint64_t> ref;
    };
    std::vector<Obj> objs;
    int mods = 0;
    bool middle = false;

    explicit Test(Src &s) : src(s), up(&s, 0, ModelUpstream::Place::Separated) {}

    template <typename... A>
    void make(std::vector<uint64_t> ref, const A &... a) {
        void *p = alloc(up, sizeof(V), alignof(V));
        Obj o;
        o.v = new (p) V(a...);
        o.ref = std::move(ref);
        objs.push_back(o);
    }
    void unmake(std::size_t k) {
        objs[k].v->~V();
        check_sticky();
        up.deallocate(objs[k].v, sizeof(V), alignof(V));
        objs.erase(objs.begin() + k);
    }

    void check(bool deep) {
        check_sticky();
        std::size_t total = 0;
        for (auto &o : objs) {
            V &v = *o.v;
            const V &c = v;
            auto &ref = o.ref;
            total += ref.size();
            PBT_CHECK(v.size() == ref.size() && v.empty() == ref.empty(), "size %zu, expected %zu", v.size(), ref.size());
            PBT_CHECK(v.capacity() == N && v.max_size() == N, "capacity %zu instead of %zu", v.capacity(), N);
            const char *b = reinterpret_cast<const char *>(o.v);
            if (N > 0) {
                const char *d = reinterpret_cast<const char *>(v.data());
                PBT_CHECK(d >= b && d + N * sizeof(T) <= b + sizeof(V), "the storage is not inside the object");
                PBT_CHECK(reinterpret_cast<uintptr_t>(d) % alignof(T) == 0, "the storage at %p is not aligned to %zu", d,
                          alignof(T));
            }
            for (std::size_t i = 0; i < ref.size(); ++i) {
                PBT_CHECK(val(v[i]) == ref[i], "element %zu has the wrong value", i);
                PBT_CHECK(&v[i] == v.data() + i && &c[i] == v.data() + i && &v.at(i) == v.data() + i &&
                              &c.at(i) == v.data() + i,
                          "element %zu is at the wrong place", i);
            }
            if (!ref.empty())
                PBT_CHECK(&v.front() == v.data() && &c.front() == v.data() && &v.back() == v.data() + ref.size() - 1 &&
                              &c.back() == v.data() + ref.size() - 1 && c.data() == v.data(),
                          "front, back or data");
            if (deep) {
                T *base = v.data();
                auto at = [base](std::size_t i) { return base + i; };
                switch (src.draw(4)) {
                    case 0:
                        walk(src, v.begin(), v.end(), ref.size(), false, at, "begin..end");
                        break;
                    case 1:
                        walk(src, v.rbegin(), v.rend(), ref.size(), true, at, "rbegin..rend");
                        break;
                    case 2:
                        walk(src, src.coin() ? c.begin() : c.cbegin(), src.coin() ? c.end() : c.cend(), ref.size(), false,
                             at, "const begin..end");
                        break;
                    default:
                        walk(src, src.coin() ? c.rbegin() : c.crbegin(), src.coin() ? c.rend() : c.crend(), ref.size(),
                             true, at, "const rbegin..rend");
                }
            }
        }
        check_sticky();
        if (Conv<T>::tracked)
            PBT_CHECK(Lifetimes::get().n_alive == (int64_t)total, "%ld elements alive, %zu in the vectors",
                      (long)Lifetimes::get().n_alive, total);
    }

    std::vector<T> values(std::size_t n, uint64_t x, std::vector<uint64_t> &ref) {
        std::vector<T> r;
        r.reserve(n);
        for (std::size_t i = 0; i < n; ++i) {
            r.push_back(Conv<T>::make(x + i));
            ref.push_back(norm<T>(x + i));
        }
        return r;
    }

    void create() {
        uint64_t x = src.draw(30000);
        std::size_t n = src.draw(N + 1);
        switch (src.draw(5)) {
            case 0:
                PBT_TRACE(src, "construct()");
                return make({});
            case 1: {
                PBT_TRACE(src, "construct(%zu)", n);
                return make(std::vector<uint64_t>(n, zero<T>()), n);
            }
            case 2: {
                PBT_TRACE(src, "construct(%zu, v)", n);
                const T t = Conv<T>::make(x);
                return make(std::vector<uint64_t>(n, norm<T>(x)), n, t);
            }
            case 3: {
                PBT_TRACE(src, "construct(range of %zu)", n);
                std::vector<uint64_t> ref;
                auto vals = values(n, x, ref);
                if (src.coin())
                    return make(ref, vals.begin(), vals.end());
                std::list<T> l(vals.begin(), vals.end());
                vals.clear();
                return make(ref, l.begin(), l.end());
            }
            default:
                if (objs.empty())
                    return make({});
                PBT_TRACE(src, "copy construct");
                auto &o = objs[src.draw(objs.size())];
                auto ref = o.ref;
                const V &from = *o.v;
                return make(ref, from);
        }
    }

    void run() {
        objs.reserve(4);
        create();
        check(true);
        int nops = 1 + src.draw(thorough() ? 50 : 25);
        for (int op = 0; op < nops; ++op) {
            std::size_t k = src.draw(objs.size());
            V &v = *objs[k].v;
            auto &ref = objs[k].ref;
            std::size_t room = N - ref.size(), pos = src.draw(ref.size() + 1);
            bool cit = src.coin();
            auto it = [&](std::size_t i) -> typename V::const_iterator {
                return cit ? v.cbegin() + i : typename V::const_iterator(v.begin() + i);
            };
            uint64_t x = src.draw(30000);
            auto returned = [&](typename V::iterator r, std::size_t want, const char *what) {
                PBT_CHECK(r == v.begin() + want, "%s returned an iterator to %ld instead of %zu", what,
                          (long)(r - v.begin()), want);
                if (want < ref.size())
                    middle = true;
            };
            ++mods;
            switch (src.draw(19)) {
                case 0:
                case 1:
                    if (room > 0) {
                        PBT_TRACE(src, "push_back");
                        const T t = Conv<T>::make(x);
                        v.push_back(t);
                        ref.push_back(norm<T>(x));
                    }
                    break;
                case 2:
                    if (room > 0) {
                        PBT_TRACE(src, "emplace_back");
                        T *e;
                        if constexpr (Conv<T>::tracked) {
                            if (src.coin()) {
                                e = &v.emplace_back();
                                ref.push_back(0);
                            } else {
                                e = &v.emplace_back(x, x + 1);
                                ref.push_back(x * 1000003 + x + 1);
                            }
                        } else {
                            e = &v.emplace_back(Conv<T>::make(x));
                            ref.push_back(norm<T>(x));
                        }
                        PBT_CHECK(e == v.data() + ref.size() - 1, "emplace_back returned another element");
                    }
                    break;
                case 3:
                case 4:
                    if (room > 0) {
                        PBT_TRACE(src, "insert at %zu of %zu", pos, ref.size());
                        const T t = Conv<T>::make(x);
                        auto r = v.insert(it(pos), t);
                        returned(r, pos, "insert");
                        ref.insert(ref.begin() + pos, norm<T>(x));
                    }
                    break;
                case 5: {
                    std::size_t n = src.draw(room + 1);
                    PBT_TRACE(src, "insert %zu copies at %zu of %zu", n, pos, ref.size());
                    const T t = Conv<T>::make(x);
                    auto r = v.insert(it(pos), n, t);
                    returned(r, pos, "insert");
                    ref.insert(ref.begin() + pos, n, norm<T>(x));
                    break;
                }
                case 6: {
                    std::size_t n = src.draw(room + 1);
                    PBT_TRACE(src, "insert range of %zu at %zu of %zu", n, pos, ref.size());
                    std::vector<uint64_t> add;
                    auto vals = values(n, x, add);
                    if (src.coin()) {
                        auto r = v.insert(it(pos), vals.begin(), vals.end());
                        returned(r, pos, "insert");
                    } else {
                        std::list<T> l(vals.begin(), vals.end());
                        auto r = v.insert(it(pos), l.begin(), l.end());
                        returned(r, pos, "insert");
                    }
                    ref.insert(ref.begin() + pos, add.begin(), add.end());
                    break;
                }
                case 7:
                    if (room > 0) {
                        PBT_TRACE(src, "emplace at %zu of %zu", pos, ref.size());
                        typename V::iterator r;
                        uint64_t want;
                        if constexpr (Conv<T>::tracked) {
                            r = v.emplace(it(pos), x, x + 7);
                            want = x * 1000003 + x + 7;
                        } else {
                            r = v.emplace(it(pos), Conv<T>::make(x));
                            want = norm<T>(x);
                        }
                        returned(r, pos, "emplace");
                        ref.insert(ref.begin() + pos, want);
                    }
                    break;
                case 8:
                    // one of the own elements
                    if (room > 0 && !ref.empty()) {
                        std::size_t i = src.draw(ref.size()), n = 1;
                        PBT_TRACE(src, "insert own element %zu at %zu of %zu", i, pos, ref.size());
                        uint64_t w = ref[i];
                        switch (src.draw(5)) {
                            case 0:
                                v.insert(it(pos), v[i]);
                                break;
                            case 1:
                                v.emplace(it(pos), v[i]);
                                break;
                            case 2:
                                n = 1 + src.draw(room);
                                v.insert(it(pos), n, v[i]);
                                break;
                            case 3:
                                pos = ref.size();
                                v.push_back(v[i]);
                                break;
                            default:
                                pos = ref.size();
                                v.emplace_back(v[i]);
                        }
                        src.label("own element");
                        ref.insert(ref.begin() + pos, n, w);
                    }
                    break;
                case 9:
                case 10:
                    if (!ref.empty()) {
                        pos = src.draw(ref.size());
                        PBT_TRACE(src, "erase %zu of %zu", pos, ref.size());
                        auto r = v.erase(it(pos));
                        ref.erase(ref.begin() + pos);
                        returned(r, pos, "erase");
                    }
                    break;
                case 11: {
                    std::size_t to = pos + src.draw(ref.size() - pos + 1);
                    PBT_TRACE(src, "erase %zu..%zu of %zu", pos, to, ref.size());
                    auto r = v.erase(it(pos), it(to));
                    ref.erase(ref.begin() + pos, ref.begin() + to);
                    returned(r, pos, "erase");
                    break;
                }
                case 12:
                    if (!ref.empty()) {
                        PBT_TRACE(src, "pop_back");
                        v.pop_back();
                        ref.pop_back();
                    }
                    break;
                case 13: {
                    std::size_t n = src.draw(N + 1);
                    PBT_TRACE(src, "resize %zu -> %zu", ref.size(), n);
                    if (src.coin()) {
                        v.resize(n);
                        ref.resize(n, zero<T>());
                    } else {
                        const T t = Conv<T>::make(x);
                        bool own = !ref.empty() && src.chance(1, 6);
                        std::size_t i = own ? src.draw(ref.size()) : 0;
                        auto w = own ? ref[i] : norm<T>(x);
                        v.resize(n, own ? v[i] : t);
                        ref.resize(n, w);
                    }
                    break;
                }
                case 14: {
                    std::size_t n = src.draw(N + 1);
                    PBT_TRACE(src, "assign %zu", n);
                    switch (src.draw(3)) {
                        case 0: {
                            const T t = Conv<T>::make(x);
                            v.assign(n, t);
                            ref.assign(n, norm<T>(x));
                            break;
                        }
                        case 1: {
                            ref.clear();
                            auto vals = values(n, x, ref);
                            v.assign(vals.begin(), vals.end());
                            break;
                        }
                        default: {
                            ref.clear();
                            auto vals = values(n, x, ref);
                            std::list<T> l(vals.begin(), vals.end());
                            v.assign(l.begin(), l.end());
                        }
                    }
                    break;
                }
                case 15: {
                    std::size_t j = src.draw(objs.size());
                    PBT_TRACE(src, "copy assign %zu <- %zu", k, j);
                    const V &from = *objs[j].v;
                    V &r = (v = from);
                    PBT_CHECK(&r == &v, "assignment returned another object");
                    ref = std::vector<uint64_t>(objs[j].ref);
                    break;
                }
                case 16:
                    if (objs.size() < 3)
                        create();
                    else
                        unmake(k);
                    break;
                case 17:
                    PBT_TRACE(src, "clear, reserve");
                    if (src.coin()) {
                        v.clear();
                        ref.clear();
                    }
                    v.reserve(src.draw(N + 1));
                    break;
                default:
                    if (!ref.empty()) {
                        std::size_t i = src.draw(ref.size());
                        PBT_TRACE(src, "write [%zu]", i);
                        T &e = src.coin() ? v[i] : src.coin() ? v.at(i) : *(v.begin() + i);
                        e = Conv<T>::make(x);
                        ref[i] = norm<T>(x);
                    }
            }
            check(op % 3 == 0);
        }
        while (!objs.empty()) {
            unmake(objs.size() - 1);
            check(false);
        }
        up.expect_balanced("vectors destroyed");
        if (mods >= 5 && middle)
            src.nontrivial();
    }
};

template <typename T>
void sizes(Src &src) {
    if (src.chance(1, 60))
        return Test<T, 1500>(src).run();
    switch (src.draw(5)) {
        case 0:
            return Test<T, 8>(src).run();
        case 1:
            return Test<T, 3>(src).run();
        case 2:
            return Test<T, 33>(src).run();
        case 3:
            return Test<T, 1>(src).run();
        default:
            return Test<T, 0>(src).run();
    }
}
}  // namespace

void run(Src &src) {
    Lifetimes::get().reset();
    switch (src.draw(9)) {
        case 0:
            return sizes<int>(src);
        case 1:
            return sizes<char>(src);
        case 2:
            return sizes<Pod<7, 1>>(src);
        case 3:
            return sizes<Pod<64, 64>>(src);
        case 4:
            return sizes<Pair>(src);
        case 5:
            return sizes<Tracked<8, 2, false>>(src);
        case 6:
            return sizes<Tracked<8, 2>>(src);
        case 7:
            return sizes<Tracked<32, 9, false>>(src);
        default:
            return sizes<Tracked<32, 9>>(src);
    }
}
}  // namespace harness
