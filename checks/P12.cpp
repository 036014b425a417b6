// SoA containers against a model that holds each variable as plain numbers: generated histories of resizing,
// reserving, appending and writing through any access path, verified through all of the others.
// check: lib=memory,utils
// assume: views are not used after the host container behind them was resized
#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include <memory>

#include "hugeview.hpp"
#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P12";
const char *const rule =
    "random histories of resize, reserve, row changes, appends and writes on host containers and fixed or resizable "
    "buffers of 7 schemas, each write through a randomly chosen path (variable, proxy, device container over a view), "
    "with all paths read back after each step; non-trivial: size at least 2, at least one write through a proxy or "
    "device container and at least one resize, append or row change; 1 case in 24: variables at untouchable addresses, up to 2^38 bytes each";
const uint64_t quick_cases = 1000000;
const uint64_t thorough_cases = 12000000;

namespace {
using SZ = unsigned int;
using vecmem::data::buffer_type;
namespace vt = vecmem::edm::type;
namespace vd = vecmem::edm::type::details;

template <typename BASE>
struct Face : public BASE {
    using BASE::BASE;
    auto &first() { return BASE::template get<0>(); }
    const auto &first() const { return BASE::template get<0>(); }
};
/// An interface whose setters and getters go through the base class
struct Model {
    std::size_t n = 0;
    std::vector<uint64_t> scalar;
    std::vector<std::vector<uint64_t>> vec;
    std::vector<std::vector<std::vector<uint64_t>>> jag;
};

template <typename... VS>
struct Kit {
    using C = vecmem::edm::container<Face, VS...>;
    using schema = typename C::schema_type;
    static constexpr std::size_t N = sizeof...(VS);
    using All = std::index_sequence_for<VS...>;
    template <std::size_t I>
    using Var = std::tuple_element_t<I, std::tuple<VS...>>;
    template <std::size_t I>
    using T = typename Var<I>::type;
    template <std::size_t I>
    static constexpr int kind = vd::is_scalar<Var<I>>::value ? 0 : vd::is_jagged_vector<Var<I>>::value ? 2 : 1;
    static constexpr bool jagged = std::disjunction_v<vd::is_jagged_vector<VS>...>;
    static constexpr bool vectors = std::disjunction_v<vd::is_vector<VS>...>;

    template <typename F, std::size_t... I>
    static void each(F f, std::index_sequence<I...>) {
        (f(std::integral_constant<std::size_t, I>()), ...);
    }
    template <typename F>
    static void each(F f) {
        each(f, All{});
    }

    // ---- reading
    template <typename P>
    static void check_proxy(P &p, std::size_t i, const Model &m, const char *what) {
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if constexpr (kind<I> == 0)
                PBT_CHECK(val<T<I>>(p.template get<I>()) == m.scalar[I], "%s: scalar %zu has the wrong value", what, I);
            else if constexpr (kind<I> == 1)
                PBT_CHECK(val<T<I>>(p.template get<I>()) == m.vec[I][i], "%s: element %zu of variable %zu is wrong", what,
                          i, I);
            else {
                auto &&row = p.template get<I>();
                PBT_CHECK(row.size() == m.jag[I][i].size(), "%s: row %zu of variable %zu has size %zu instead of %zu",
                          what, i, I, static_cast<std::size_t>(row.size()), m.jag[I][i].size());
                for (std::size_t j = 0; j < row.size(); ++j)
                    PBT_CHECK(val<T<I>>(row[j]) == m.jag[I][i][j], "%s: element %zu of row %zu of variable %zu", what, j,
                              i, I);
            }
        });
    }
    template <typename X>
    static void check_all(Src &src, X &c, const Model &m, const char *what) {
        if constexpr (vectors)
            PBT_CHECK(c.size() == m.n, "%s: size %zu instead of %zu", what, static_cast<std::size_t>(c.size()), m.n);
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if constexpr (kind<I> == 0)
                PBT_CHECK(val<T<I>>(c.template get<I>()) == m.scalar[I], "%s: scalar %zu has the wrong value", what, I);
            else {
                auto &v = c.template get<I>();
                PBT_CHECK(v.size() == m.n, "%s: variable %zu has size %zu instead of %zu", what, I,
                          static_cast<std::size_t>(v.size()), m.n);
                for (std::size_t i = 0; i < m.n; ++i)
                    if constexpr (kind<I> == 1)
                        PBT_CHECK(val<T<I>>(v[i]) == m.vec[I][i], "%s: element %zu of variable %zu", what, i, I);
                    else {
                        auto &&row = v[i];
                        PBT_CHECK(row.size() == m.jag[I][i].size(), "%s: row %zu of variable %zu has size %zu", what, i,
                                  I, static_cast<std::size_t>(row.size()));
                        for (std::size_t j = 0; j < row.size(); ++j)
                            PBT_CHECK(val<T<I>>(row[j]) == m.jag[I][i][j], "%s: element %zu,%zu of variable %zu", what,
                                      i, j, I);
                    }
            }
        });
        if constexpr (vectors) {
            const X &k = c;
            for (std::size_t i = 0; i < m.n; ++i) {
                switch (src.draw(4)) {
                    case 0: {
                        auto p = c.at(i);
                        check_proxy(p, i, m, what);
                        const auto &q = p;
                        check_proxy(q, i, m, what);
                        break;
                    }
                    case 1: {
                        auto p = c[i];
                        check_proxy(p, i, m, what);
                        auto copy(p);
                        check_proxy(copy, i, m, what);
                        break;
                    }
                    case 2: {
                        auto p = k.at(i);
                        check_proxy(p, i, m, what);
                        const auto &q = p;
                        check_proxy(q, i, m, what);
                        break;
                    }
                    default: {
                        const auto p = k[i];
                        check_proxy(p, i, m, what);
                        break;
                    }
                }
            }
        }
    }

    // ---- writing
    template <typename X>
    static void write_some(Src &src, X &c, Model &m, const char *what) {
        std::size_t which = src.draw(N), i = m.n ? src.draw(m.n) : 0;
        uint64_t x = 1 + src.draw(20000);
        bool by_proxy = src.coin(), sub = src.coin();
        if (by_proxy && m.n == 0)
            return;
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if (I != which)
                return;
            PBT_TRACE(src, "%s: write variable %zu, element %zu%s", what, I, i, by_proxy ? " through a proxy" : "");
            auto value = Conv<T<I>>::make(x);
            if constexpr (kind<I> == 0) {
                if constexpr (vectors) {
                    if (by_proxy) {
                        auto p = sub ? c[i] : c.at(i);
                        p.template get<I>() = value;
                    } else
                        c.template get<I>() = value;
                } else
                    c.template get<I>() = value;
                m.scalar[I] = norm<T<I>>(x);
            } else if (m.n > 0) {
                if constexpr (kind<I> == 1) {
                    if (by_proxy) {
                        auto p = sub ? c[i] : c.at(i);
                        p.template get<I>() = value;
                    } else if (sub)
                        c.template get<I>()[i] = value;
                    else
                        c.template get<I>().at(i) = value;
                    m.vec[I][i] = norm<T<I>>(x);
                } else {
                    std::size_t len = m.jag[I][i].size();
                    if (len == 0)
                        return;
                    std::size_t j = src.draw(len);
                    if (by_proxy) {
                        auto p = sub ? c[i] : c.at(i);
                        p.template get<I>()[j] = value;
                    } else if (sub)
                        c.template get<I>()[i][j] = value;
                    else
                        c.template get<I>().at(i).at(j) = value;
                    m.jag[I][i][j] = norm<T<I>>(x);
                }
            }
        });
        wrote = true;
    }
    static inline bool wrote, changed;

    static void init(Model &m) {
        m = Model();
        m.scalar.assign(N, 0);
        m.vec.resize(N);
        m.jag.resize(N);
        each([&](auto ic) { m.scalar[ic] = zero<T<ic>>(); });
    }
    static void model_resize(Model &m, std::size_t n) {
        m.n = n;
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            if constexpr (kind<I> == 1)
                m.vec[I].resize(n, zero<T<I>>());
            if constexpr (kind<I> == 2)
                m.jag[I].resize(n);
        });
    }

    // ---- host container
    using Host = typename C::host;
    /// Is all memory from where it should be?
    static void check_memory(Host &h, const ModelUpstream &up) {
        each([&](auto ic) {
            constexpr std::size_t I = ic;
            auto &v = std::get<I>(h.variables());
            auto inside = [&](auto &x, const char *what) {
                if (x.capacity() > 0)
                    PBT_CHECK(up.contains(x.data(), x.capacity() * sizeof(x[0])),
                              "%s of variable %zu is not in memory of the container's resource", what, I);
            };
            inside(v, "the outer vector");
            if constexpr (kind<I> == 2)
                for (auto &row : v)
                    inside(row, "a row");
        });
    }
    template <typename D>
    static void through_view(Src &src, D &&data, Model &m, bool writable, const char *what) {
        // a view of the object (constant or not), and a device container on it
        if constexpr (std::is_same_v<typename std::decay_t<D>::schema_type, schema>) {
            typename C::view view = vecmem::get_data(data);
            typename C::const_view cview = view;
            const auto &cd = data;
            typename C::const_view cview2 = vecmem::get_data(cd);
            typename C::const_view cview3{0};
            cview3 = view;
            typename C::device dev(view);
            for (int k = src.draw(4); writable && k > 0; --k)
                write_some(src, dev, m, what);
            check_all(src, dev, m, what);
            switch (src.draw(4)) {
                case 0: {
                    typename C::const_device cdev(cview);
                    check_all(src, cdev, m, what);
                    break;
                }
                case 1: {
                    typename C::const_device cdev(cview2);
                    check_all(src, cdev, m, what);
                    break;
                }
                case 2: {
                    typename C::const_device cdev(cview3);
                    check_all(src, cdev, m, what);
                    break;
                }
                default: {
                    const typename C::device kdev(view);
                    check_all(src, kdev, m, what);
                }
            }
            check_capacity(view, dev, m);
        } else {
            typename C::const_view cview = vecmem::get_data(data);
            typename C::const_device cdev(cview);
            check_all(src, cdev, m, what);
            check_capacity(cview, cdev, m);
        }
    }
    template <typename V, typename D>
    static void check_capacity(V &view, D &dev, const Model &m) {
        std::size_t want = vectors ? m.n : 0;
        if constexpr (vectors)
            PBT_CHECK(view.capacity() >= want && dev.capacity() == view.capacity(), "capacity %u, %u for size %zu",
                      view.capacity(), dev.capacity(), want);
        else
            PBT_CHECK(view.capacity() == 0, "a container of scalars has capacity %u", view.capacity());
    }

    static void host(Src &src) {
        ModelUpstream up(&src, 0, ModelUpstream::Place::Separated), up2(&src, 1, ModelUpstream::Place::Separated);
        {
            Model m;
            init(m);
            auto h = std::make_unique<Host>(up);
            PBT_CHECK(&h->resource() == &up, "the container has another resource");
            int nops = 2 + src.draw(thorough() ? 30 : 12);
            for (int op = 0; op < nops; ++op) {
                switch (src.draw(10)) {
                    case 0:
                    case 1:
                        if constexpr (vectors) {
                            std::size_t n = src.chance(1, 8) ? src.draw(200) : pbt::sized(src, 9, 2000, 150);
                            PBT_TRACE(src, "resize to %zu", n);
                            h->resize(n);
                            model_resize(m, n);
                            changed = true;
                        }
                        break;
                    case 2:
                        if constexpr (vectors) {
                            std::size_t n = src.draw(40);
                            PBT_TRACE(src, "reserve %zu", n);
                            h->reserve(n);
                            each([&](auto ic) {
                                constexpr std::size_t I = ic;
                                if constexpr (kind<I> != 0)
                                    PBT_CHECK(h->template get<I>().capacity() >= n,
                                              "variable %zu has capacity %zu after reserving %zu", I,
                                              h->template get<I>().capacity(), n);
                            });
                        }
                        break;
                    case 3:
                        // change a row
                        if constexpr (jagged) {
                            std::size_t which = src.draw(N), i = m.n ? src.draw(m.n) : 0;
                            std::size_t len = src.draw(6);
                            int how = src.draw(3);
                            uint64_t x = src.draw(1000);
                            each([&](auto ic) {
                                constexpr std::size_t I = ic;
                                if constexpr (kind<I> == 2)
                                    if (I == which && m.n > 0) {
                                        PBT_TRACE(src, "change row %zu of variable %zu", i, I);
                                        auto v = Conv<T<I>>::make(x);
                                        if (how == 0) {
                                            h->template get<I>()[i].assign(len, v);
                                            m.jag[I][i].assign(len, norm<T<I>>(x));
                                        } else if (how == 1) {
                                            h->at(i).template get<I>().push_back(v);
                                            m.jag[I][i].push_back(norm<T<I>>(x));
                                        } else {
                                            (*h)[i].template get<I>().resize(len);
                                            m.jag[I][i].resize(len, zero<T<I>>());
                                        }
                                        changed = true;
                                    }
                            });
                        }
                        break;
                    case 4:
                        // inconsistent sizes
                        if constexpr (vectors) {
                            std::size_t which = src.draw(N);
                            std::size_t count = 0;
                            each([&](auto ic) { count += kind<ic> != 0; });
                            each([&](auto ic) {
                                constexpr std::size_t I = ic;
                                if constexpr (kind<I> != 0)
                                    if (I == which && count >= 2) {
                                        PBT_TRACE(src, "make variable %zu inconsistent", I);
                                        const Host &k = *h;
                                        auto &v = h->template get<I>();
                                        bool longer = m.n == 0 || src.coin();
                                        auto last = m.n > 0 ? v.back() : typename std::decay_t<decltype(v)>::value_type();
                                        if (longer)
                                            v.resize(m.n + 1 + src.draw(3));
                                        else
                                            v.pop_back();
                                        PBT_CHECK(throws<std::length_error>([&] { (void)k.size(); }),
                                                  "inconsistent sizes are not reported by size()");
                                        PBT_CHECK(throws<std::length_error>([&] { (void)k.at(0); }) &&
                                                      throws<std::length_error>([&] { (void)h->at(0); }),
                                                  "inconsistent sizes are not reported by at()");
                                        PBT_CHECK(throws<std::length_error>([&] { (void)vecmem::get_data(*h); }) &&
                                                      throws<std::length_error>([&] { (void)vecmem::get_data(k); }),
                                                  "inconsistent sizes are not reported by get_data()");
                                        if (longer && src.coin()) {
                                            // resizing makes it consistent again
                                            h->resize(m.n);
                                        } else if (longer)
                                            v.resize(m.n);
                                        else
                                            v.push_back(last);
                                    }
                            });
                        }
                        break;
                    case 5:
                        if constexpr (vectors) {
                            // checked access
                            std::size_t i = m.n + src.pick<std::size_t>({0, 1, 17, std::size_t(1) << 32,
                                                                         ~std::size_t(0) - m.n,
                                                                         (~std::size_t(0) >> 1) - m.n});
                            const Host &k = *h;
                            PBT_CHECK(throws<std::out_of_range>([&] { (void)h->at(i); }),
                                      "at(%zu) of a container of size %zu does not throw", i, m.n);
                            PBT_CHECK(throws<std::out_of_range>([&] { (void)k.at(i); }),
                                      "constant at(%zu) of a container of size %zu does not throw", i, m.n);
                        }
                        break;
                    case 6: {
                        PBT_TRACE(src, "through get_data");
                        if (src.coin()) {
                            auto data = vecmem::get_data(*h);
                            through_view(src, data, m, true, "device container on a host container");
                        } else {
                            std::size_t before = up.live().size();
                            auto data = vecmem::get_data(*h, &up2);
                            PBT_CHECK(up.live().size() == before, "get_data with a resource uses another one");
                            auto moved = std::move(data);
                            through_view(src, moved, m, true, "device container on a host container");
                        }
                        break;
                    }
                    case 7: {
                        const Host &k = *h;
                        auto data = vecmem::get_data(k);
                        through_view(src, data, m, false, "device container on a constant host container");
                        break;
                    }
                    default:
                        write_some(src, *h, m, "host container");
                }
                check_all(src, *h, m, "host container");
                const Host &k = *h;
                check_all(src, k, m, "constant host container");
                check_memory(*h, up);
                if (src.chance(1, 12)) {
                    PBT_TRACE(src, "move the container");
                    auto h2 = std::make_unique<Host>(std::move(*h));
                    h = std::move(h2);
                    check_all(src, *h, m, "moved host container");
                    check_memory(*h, up);
                }
            }
            if (m.n >= 2 && wrote && changed)
                src.nontrivial();
            if constexpr (!vectors)
                if (wrote)
                    src.nontrivial();
        }
        up.expect_balanced("after the host container is gone");
        up2.expect_balanced("after the host container is gone");
    }

    // ---- buffers
    static void buffer(Src &src) {
        if constexpr (vectors) {
            ModelUpstream up(&src, 0, ModelUpstream::Place::Separated), up2(&src, 1, ModelUpstream::Place::Separated);
            {
                vecmem::copy copy;
                pbt::Details more(src, 100);
                std::size_t n = more.big() ? more.draw(2000) : src.draw(9);
                bool resizable = src.coin(), two = src.coin();
                auto type = resizable ? buffer_type::resizable : buffer_type::fixed_size;
                std::vector<std::size_t> caps(n);
                for (auto &c : caps)
                    c = jagged ? more.draw(6) : 0;
                PBT_TRACE(src, "%s buffer of capacity %zu", resizable ? "resizable" : "fixed", n);
                typename C::buffer buf;
                if constexpr (jagged)
                    buf = typename C::buffer(caps, up, two ? &up2 : nullptr, type);
                else
                    buf = typename C::buffer(n, up, type);
                copy.setup(buf)->wait();
                Model m;
                init(m);
                typename C::view view = vecmem::get_data(buf);
                typename C::device dev(view);
                // initial state: known contents
                model_resize(m, resizable && !jagged ? 0 : n);
                each([&](auto ic) {
                    constexpr std::size_t I = ic;
                    if constexpr (kind<I> == 0) {
                        uint64_t x = src.draw(1000);
                        dev.template get<I>() = Conv<T<I>>::make(x);
                        m.scalar[I] = norm<T<I>>(x);
                    } else if constexpr (kind<I> == 1) {
                        for (std::size_t i = 0; i < m.n; ++i)
                            dev.template get<I>()[i] = Conv<T<I>>::make(0), m.vec[I][i] = norm<T<I>>(0);
                    } else
                        for (std::size_t i = 0; i < m.n; ++i) {
                            m.jag[I][i].assign(resizable ? 0 : caps[i], norm<T<I>>(0));
                            for (std::size_t j = 0; j < m.jag[I][i].size(); ++j)
                                dev.template get<I>()[i][j] = Conv<T<I>>::make(0);
                        }
                });
                typename C::device other(view);
                auto &first = dev.first();
                PBT_CHECK(&first == &dev.template get<0>(), "the interface reaches something else");
                int nops = 2 + src.draw(thorough() ? 30 : 12);
                for (int op = 0; op < nops; ++op) {
                    typename C::device &d = src.coin() ? dev : other;
                    switch (src.draw(5)) {
                        case 0:
                        case 1:
                            if constexpr (!jagged) {
                                if (resizable && m.n < n) {
                                    PBT_TRACE(src, "push_back_default at %zu", m.n);
                                    SZ at = d.push_back_default();
                                    PBT_CHECK(at == m.n, "push_back_default returned %u instead of %zu", at, m.n);
                                    model_resize(m, m.n + 1);
                                    changed = true;
                                }
                            } else if (resizable && m.n > 0) {
                                std::size_t which = src.draw(N), i = src.draw(m.n);
                                uint64_t x = src.draw(1000);
                                bool by_proxy = src.coin();
                                each([&](auto ic) {
                                    constexpr std::size_t I = ic;
                                    if constexpr (kind<I> == 2)
                                        if (I == which && m.jag[I][i].size() < caps[i]) {
                                            PBT_TRACE(src, "append to row %zu of variable %zu", i, I);
                                            SZ at;
                                            if (by_proxy) {
                                                auto p = d.at(i);
                                                at = p.template get<I>().push_back(Conv<T<I>>::make(x));
                                            } else
                                                at = d.template get<I>()[i].push_back(Conv<T<I>>::make(x));
                                            PBT_CHECK(at == m.jag[I][i].size(), "append to a row returned %u", at);
                                            m.jag[I][i].push_back(norm<T<I>>(x));
                                            changed = true;
                                        }
                                });
                            }
                            break;
                        case 2:
                            through_view(src, buf, m, true, "device container on a buffer");
                            break;
                        default:
                            write_some(src, d, m, "device container");
                    }
                    check_all(src, dev, m, "device container");
                    const typename C::device &k = other;
                    check_all(src, k, m, "second device container");
                    PBT_CHECK(dev.capacity() == n && other.capacity() == n && view.capacity() == n,
                              "capacity changed");
                }
                if (m.n >= 2 && wrote && (changed || !resizable))
                    src.nontrivial();
            }
            up.expect_balanced("after the buffer is gone");
            up2.expect_balanced("after the buffer is gone");
        } else
            host(src);
    }
    static void run(Src &src) {
        wrote = changed = false;
        if (src.coin())
            host(src);
        else
            buffer(src);
        check_sticky();
    }
};
}  // namespace

void run(Src &src) {
    using P7 = Pod<7, 1>;
    if (src.draw(24) == 1)
        return hc::any_soa_view(src);
    switch (src.draw(7)) {
        case 0:
            return Kit<vt::vector<int>, vt::vector<double>, vt::vector<char>>::run(src);
        case 1:
            return Kit<vt::scalar<char>, vt::vector<P7>, vt::scalar<double>, vt::vector<float>>::run(src);
        case 2:
            return Kit<vt::jagged_vector<char>, vt::scalar<float>, vt::vector<short>, vt::jagged_vector<double>>::run(
                src);
        case 3:
            return Kit<vt::scalar<int>, vt::jagged_vector<int>>::run(src);
        case 4:
            return Kit<vt::scalar<int>, vt::scalar<double>>::run(src);
        case 5:
            return Kit<vt::vector<uint64_t>>::run(src);
        default:
            return Kit<vt::vector<float>, vt::jagged_vector<P7>, vt::jagged_vector<int>, vt::vector<Pod<64, 64>>,
                       vt::scalar<short>>::run(src);
    }
}
}  // namespace harness
