// Memory layout of 1D, jagged and SoA buffers for generated capacities, types and resources: every array that
// a buffer describes is collected, and checked for placement, alignment, disjointness and lasting contents.
// check: lib=memory,utils
// assume: the number of rows or elements of an SoA buffer is small enough to describe them on the host
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/schema.hpp>
#include <vecmem/edm/view.hpp>

#include <memory>
#include <optional>

#include "hugecopy.hpp"
#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P11";
const char *const rule =
    "random histories over up to 6 buffers (1D, jagged and SoA of 10 schemas, element alignments 1 to 64, fixed and "
    "resizable, capacities 0 to 2^18, with one or two resources) that are created, filled, moved, reassigned and "
    "destroyed in any order; non-trivial: at least 2 arrays with contents in some buffer and a move or destruction; 1 case in 16: arrays of up to 2^38 bytes at untouchable addresses";
const uint64_t quick_cases = 300000;
const uint64_t thorough_cases = 3600000;

namespace {
using SZ = unsigned int;
using vecmem::data::buffer_type;
namespace vt = vecmem::edm::type;

/// Memory that a buffer describes
struct Ext {
    const void *p;
    std::size_t bytes, align;
    int where;  // index of the resource
    bool may_fill;
    const char *what;
};
struct Resources {
    std::vector<std::unique_ptr<ModelUpstream>> up;
};

/// What was asked for when the buffer was made
struct Asked {
    std::vector<std::size_t> caps;  // number of elements (1D: one entry), or of the rows
    bool resizable = false;
    bool empty = true;  // default constructed, or moved from
    int main = 0, host = -1;
    std::size_t rows() const { return caps.size(); }
};

template <typename T>
struct Vec {
    using type = vecmem::data::vector_buffer<T>;
    static constexpr bool jagged = false;
    static type make(const Asked &a, Resources &r, Src &) {
        return type(static_cast<SZ>(a.caps.size()), *r.up[a.main],
                    a.resizable ? buffer_type::resizable : buffer_type::fixed_size);
    }
    static void collect(type &b, const Asked &a, std::vector<Ext> &out, std::vector<std::pair<SZ *, SZ>> &sizes) {
        std::size_t n = a.rows();
        PBT_CHECK(b.capacity() == n, "1D buffer has capacity %u instead of %zu", b.capacity(), n);
        if (a.empty || !a.resizable)
            PBT_CHECK(b.size_ptr() == nullptr && b.size() == n, "fixed size 1D buffer has size %u instead of %zu",
                      b.size(), n);
        else if (n > 0) {
            PBT_CHECK(b.size_ptr() != nullptr, "resizable 1D buffer has no size");
            out.push_back({b.size_ptr(), sizeof(SZ), alignof(SZ), a.main, false, "size"});
            sizes.emplace_back(b.size_ptr(), n);
        }
        if (n > 0)
            out.push_back({b.ptr(), n * sizeof(T), alignof(T), a.main, true, "elements"});
        vecmem::data::vector_view<T> v = vecmem::get_data(b);
        const type &c = b;
        vecmem::data::vector_view<const T> cv = vecmem::get_data(c);
        PBT_CHECK(v.ptr() == b.ptr() && v.capacity() == b.capacity() && v.size_ptr() == b.size_ptr() &&
                      cv.ptr() == b.ptr() && cv.capacity() == b.capacity() && cv.size_ptr() == b.size_ptr(),
                  "get_data of a 1D buffer describes something else");
    }
};

template <typename T>
void collect_rows(vecmem::data::jagged_vector_view<T> &b, const Asked &a, std::vector<Ext> &out,
                  std::vector<std::pair<SZ *, SZ>> &sizes) {
    std::size_t n = a.rows();
    PBT_CHECK(b.size() == n, "jagged buffer has %zu rows instead of %zu", static_cast<std::size_t>(b.size()), n);
    PBT_CHECK(b.capacity() == n, "jagged buffer has capacity %zu instead of %zu",
              static_cast<std::size_t>(b.capacity()), n);
    if (n == 0)
        return;
    using Row = vecmem::data::vector_view<T>;
    int h = a.host >= 0 ? a.host : a.main;
    out.push_back({b.host_ptr(), n * sizeof(Row), alignof(Row), h, false, "host layout"});
    if (a.host >= 0)
        out.push_back({b.ptr(), n * sizeof(Row), alignof(Row), a.main, true, "device layout"});
    else
        PBT_CHECK(b.ptr() == b.host_ptr(), "jagged buffer with a single resource has two layouts");
    for (std::size_t i = 0; i < n; ++i) {
        Row &r = b.host_ptr()[i];
        PBT_CHECK(r.capacity() == a.caps[i], "row %zu has capacity %u instead of %zu", i, r.capacity(), a.caps[i]);
        if (!a.resizable)
            PBT_CHECK(r.size_ptr() == nullptr && r.size() == a.caps[i], "fixed size row %zu has size %u instead of %zu",
                      i, r.size(), a.caps[i]);
        else {
            PBT_CHECK(r.size_ptr() != nullptr, "resizable row %zu has no size", i);
            out.push_back({r.size_ptr(), sizeof(SZ), alignof(SZ), a.main, false, "row size"});
            sizes.emplace_back(r.size_ptr(), a.caps[i]);
        }
        if (a.caps[i] > 0)
            out.push_back({r.ptr(), a.caps[i] * sizeof(T), alignof(T), a.main, true, "row"});
    }
}

template <typename S>
std::vector<S> as(const std::vector<std::size_t> &v) {
    return std::vector<S>(v.begin(), v.end());
}
/// Make a buffer with any of the possible types of capacities
template <typename B>
B make_jagged(const Asked &a, Resources &r, Src &src) {
    auto type = a.resizable ? buffer_type::resizable : buffer_type::fixed_size;
    auto *host = a.host >= 0 ? r.up[a.host].get() : nullptr;
    auto &main = *r.up[a.main];
    std::size_t most = 0;
    for (std::size_t c : a.caps)
        most = std::max(most, c);
    switch (src.draw(4)) {
        case 1:
            return B(as<unsigned int>(a.caps), main, host, type);
        case 2:
            if (most < 65536)
                return B(as<unsigned short>(a.caps), main, host, type);
            break;
        case 3:
            if (most < 256)
                return B(as<unsigned char>(a.caps), main, host, type);
            break;
        default:
            break;
    }
    if (!a.resizable && src.coin()) {
        // rely on defaults
        if (host == nullptr)
            return B(a.caps, main);
        return B(a.caps, main, host);
    }
    return B(a.caps, main, host, type);
}

template <typename T>
struct Jag {
    using type = vecmem::data::jagged_vector_buffer<T>;
    static constexpr bool jagged = true;
    static type make(const Asked &a, Resources &r, Src &src) {
        if (src.chance(1, 4)) {
            // from the sizes of something else
            std::vector<vecmem::data::vector_view<T>> rows;
            std::vector<SZ> sizes(a.rows());
            for (std::size_t i = 0; i < a.rows(); ++i) {
                sizes[i] = a.caps[i];
                if (src.coin())
                    rows.emplace_back(sizes[i], nullptr);
                else
                    rows.emplace_back(sizes[i] + static_cast<SZ>(src.draw(4)), &sizes[i], nullptr);
            }
            vecmem::data::jagged_vector_view<T> v(static_cast<SZ>(rows.size()),
                                                  src.coin() ? rows.data() : nullptr, rows.data());
            return type(v, *r.up[a.main], a.host >= 0 ? r.up[a.host].get() : nullptr,
                        a.resizable ? buffer_type::resizable : buffer_type::fixed_size);
        }
        return make_jagged<type>(a, r, src);
    }
    static void collect(type &b, const Asked &a, std::vector<Ext> &out, std::vector<std::pair<SZ *, SZ>> &sizes) {
        collect_rows<T>(b, a, out, sizes);
        vecmem::data::jagged_vector_view<T> v = vecmem::get_data(b);
        const type &c = b;
        vecmem::data::jagged_vector_view<T> cv = vecmem::get_data(c);
        PBT_CHECK(v.ptr() == b.ptr() && v.size() == b.size() && v.host_ptr() == b.host_ptr() && cv.ptr() == b.ptr() &&
                      cv.size() == b.size() && cv.host_ptr() == b.host_ptr(),
                  "get_data of a jagged buffer describes something else");
    }
};

template <typename... VS>
struct Soa {
    using schema = vecmem::edm::schema<VS...>;
    using type = vecmem::edm::buffer<schema>;
    using view = vecmem::edm::view<schema>;
    using cview = vecmem::edm::view<vecmem::edm::details::add_const_t<schema>>;
    static constexpr bool jagged = std::disjunction_v<vt::details::is_jagged_vector<VS>...>;
    static constexpr bool vectors = std::disjunction_v<vt::details::is_vector<VS>...>;
    static type make(const Asked &a, Resources &r, Src &src) {
        if constexpr (jagged)
            return make_jagged<type>(a, r, src);
        else {
            if constexpr (vectors)
                return type(static_cast<SZ>(a.caps.size()), *r.up[a.main],
                            a.resizable ? buffer_type::resizable : buffer_type::fixed_size);
            else
                throw std::logic_error("scalar only");
        }
    }
    static bool inside(const void *p, std::size_t n, const vecmem::edm::details::memory_view &v) {
        const char *c = static_cast<const char *>(p);
        return c >= v.ptr() && c + n <= v.ptr() + v.size();
    }
    template <std::size_t I>
    static void variable(type &b, const Asked &a, std::vector<Ext> &out, std::vector<std::pair<SZ *, SZ>> &sizes,
                         SZ *&shared) {
        using V = std::tuple_element_t<I, std::tuple<VS...>>;
        using T = typename V::type;
        std::size_t n = a.rows(), first = out.size();
        if constexpr (vt::details::is_scalar<V>::value) {
            out.push_back({b.template get<I>(), sizeof(T), alignof(T), a.main, true, "scalar"});
            PBT_CHECK(inside(b.template get<I>(), sizeof(T), b.payload()), "scalar %zu not in the payload", I);
        } else if constexpr (vt::details::is_jagged_vector<V>::value) {
            auto &v = b.template get<I>();
            collect_rows<T>(v, a, out, sizes);
            if (n > 0) {
                std::size_t bytes = n * sizeof(vecmem::data::vector_view<T>);
                PBT_CHECK(inside(v.ptr(), bytes, b.layout()), "layout of variable %zu not in the layout memory", I);
                PBT_CHECK(inside(v.host_ptr(), bytes, b.host_layout()),
                          "host layout of variable %zu not in the host layout memory", I);
            }
        } else {
            auto &v = b.template get<I>();
            PBT_CHECK(v.capacity() == n, "variable %zu has capacity %u instead of %zu", I, v.capacity(), n);
            if (!a.resizable || jagged)
                PBT_CHECK(v.size_ptr() == nullptr && v.size() == n, "fixed size variable %zu has size %u instead of %zu",
                          I, v.size(), n);
            else {
                PBT_CHECK(v.size_ptr() != nullptr, "resizable variable %zu has no size", I);
                if (shared == nullptr) {
                    shared = v.size_ptr();
                    out.push_back({shared, sizeof(SZ), alignof(SZ), a.main, false, "size"});
                    sizes.emplace_back(shared, n);
                }
                PBT_CHECK(shared == v.size_ptr(), "variables have different sizes");
            }
            if (n > 0)
                out.push_back({v.ptr(), n * sizeof(T), alignof(T), a.main, true, "vector variable"});
        }
        for (std::size_t k = first; k < out.size(); ++k) {
            const std::string what = out[k].what;
            if (what == "row" || what == "vector variable")
                PBT_CHECK(inside(out[k].p, out[k].bytes, b.payload()), "array of variable %zu not in the payload", I);
            if (what == "row size" || what == "size")
                PBT_CHECK(inside(out[k].p, out[k].bytes, b.size()), "size of variable %zu not in the size memory", I);
        }
    }
    template <std::size_t... I>
    static void variables(type &b, const Asked &a, std::vector<Ext> &out, std::vector<std::pair<SZ *, SZ>> &sizes,
                          std::index_sequence<I...>) {
        SZ *shared = nullptr;
        (variable<I>(b, a, out, sizes, shared), ...);
        const type &c = b;
        view v = vecmem::get_data(b);
        cview cv = vecmem::get_data(c);
        auto same = [](auto &x, auto &y) {
            if constexpr (std::is_pointer_v<std::decay_t<decltype(x)>>)
                return x == y;
            else
                return static_cast<const void *>(x.ptr()) == static_cast<const void *>(y.ptr()) &&
                       x.capacity() == y.capacity();
        };
        PBT_CHECK((same(v.template get<I>(), b.template get<I>()) && ...) &&
                      (same(cv.template get<I>(), b.template get<I>()) && ...) && v.capacity() == b.capacity() &&
                      cv.capacity() == b.capacity(),
                  "get_data of an SoA buffer describes something else");
        PBT_CHECK(v.payload().ptr() == b.payload().ptr() && v.payload().size() == b.payload().size() &&
                      cv.payload().ptr() == b.payload().ptr() && v.size().ptr() == b.size().ptr() &&
                      cv.size().ptr() == b.size().ptr() && v.layout().ptr() == b.layout().ptr() &&
                      cv.layout().ptr() == b.layout().ptr() && v.host_layout().ptr() == b.host_layout().ptr() &&
                      cv.host_layout().ptr() == b.host_layout().ptr() &&
                      cv.host_layout().size() == b.host_layout().size() && cv.layout().size() == b.layout().size(),
                  "get_data of an SoA buffer describes other memory");
    }
    static void collect(type &b, const Asked &a, std::vector<Ext> &out, std::vector<std::pair<SZ *, SZ>> &sizes) {
        PBT_CHECK(b.capacity() == a.rows(), "SoA buffer has capacity %u instead of %zu", b.capacity(), a.rows());
        if (a.empty) {
            PBT_CHECK(b.size().size() == 0 && b.size().ptr() == nullptr && b.payload().size() == 0 &&
                          b.payload().ptr() == nullptr && b.layout().ptr() == nullptr &&
                          b.host_layout().ptr() == nullptr,
                      "default constructed SoA buffer is not empty");
            return;
        }
        variables(b, a, out, sizes, std::index_sequence_for<VS...>{});
        if (!a.resizable)
            PBT_CHECK(b.size().size() == 0 && b.size().ptr() == nullptr, "fixed size SoA buffer has size memory");
        // the blocks that copies use as a whole
        std::vector<Ext> whole;
        auto add = [&](const vecmem::edm::details::memory_view &m, int where, const char *what) {
            if (m.size() > 0)
                whole.push_back({m.ptr(), m.size(), 1, where, false, what});
        };
        add(b.size(), a.main, "size memory");
        add(b.payload(), a.main, "payload memory");
        add(b.layout(), a.main, "layout memory");
        if (b.host_layout().ptr() != b.layout().ptr())
            add(b.host_layout(), a.host >= 0 ? a.host : a.main, "host layout memory");
        for (auto &x : whole)
            for (auto &y : whole)
                PBT_CHECK(&x == &y || static_cast<const char *>(x.p) + x.bytes <= y.p ||
                              static_cast<const char *>(y.p) + y.bytes <= x.p,
                          "%s and %s of an SoA buffer overlap", x.what, y.what);
        for (auto &x : out)
            for (auto &y : whole) {
                const std::string inside = x.what, block = y.what;
                bool belongs = (block == "size memory" && (inside == "row size" || inside == "size")) ||
                               (block == "payload memory" &&
                                (inside == "row" || inside == "vector variable" || inside == "scalar")) ||
                               (block == "layout memory" && (inside == "device layout" || inside == "host layout")) ||
                               (block == "host layout memory" && inside == "host layout");
                PBT_CHECK(belongs || static_cast<const char *>(x.p) + x.bytes <= y.p ||
                              static_cast<const char *>(y.p) + y.bytes <= x.p,
                          "the %s of an SoA buffer overlaps with its %s", x.what, y.what);
            }
    }
};

/// A buffer with what is known about it
struct Slot {
    Asked asked;
    std::vector<Ext> exts;
    std::vector<std::pair<SZ *, SZ>> sizes;
    std::vector<SZ> size_vals;
    int pattern = -1;
    /// Blocks of the upstreams that belong to this buffer
    std::vector<std::pair<int, uintptr_t>> blocks;
    void forget() {
        asked = Asked();
        exts.clear();
        sizes.clear();
        size_vals.clear();
        blocks.clear();
        pattern = -1;
    }
};

constexpr std::size_t EDGE = 96;
void fill(const Slot &s) {
    int k = s.pattern;
    for (auto &e : s.exts) {
        ++k;
        if (!e.may_fill)
            continue;
        char *p = const_cast<char *>(static_cast<const char *>(e.p));
        std::size_t n = std::min(e.bytes, EDGE);
        memset(p, k & 0xff, n);
        memset(p + e.bytes - n, (k & 0xff), n);
    }
}
void check_filled(const Slot &s) {
    int k = s.pattern;
    for (auto &e : s.exts) {
        ++k;
        if (!e.may_fill)
            continue;
        const char *p = static_cast<const char *>(e.p);
        std::size_t n = std::min(e.bytes, EDGE);
        for (std::size_t i = 0; i < n; ++i)
            PBT_CHECK(p[i] == static_cast<char>(k & 0xff) && p[e.bytes - 1 - i] == static_cast<char>(k & 0xff),
                      "contents of a buffer (%s) have changed", e.what);
    }
    for (std::size_t i = 0; i < s.sizes.size(); ++i)
        PBT_CHECK(*s.sizes[i].first == s.size_vals[i], "a size stored in a buffer has changed");
}
void check_layout(const Slot &s, Resources &r) {
    auto sorted = s.exts;
    std::sort(sorted.begin(), sorted.end(), [](const Ext &a, const Ext &b) { return a.p < b.p; });
    for (std::size_t i = 0; i < sorted.size(); ++i) {
        auto &e = sorted[i];
        PBT_CHECK(e.p != nullptr, "a buffer has no memory for its %s", e.what);
        PBT_CHECK(reinterpret_cast<uintptr_t>(e.p) % e.align == 0, "%s of a buffer at %p is not aligned to %zu",
                  e.what, e.p, e.align);
        PBT_CHECK(r.up[e.where]->contains(e.p, e.bytes), "%s of a buffer is not inside memory of the %s resource",
                  e.what, e.where == s.asked.main ? "main" : "host");
        if (i > 0)
            PBT_CHECK(static_cast<const char *>(sorted[i - 1].p) + sorted[i - 1].bytes <= e.p,
                      "%s and %s of a buffer overlap", sorted[i - 1].what, e.what);
    }
}

template <typename K>
void history(Src &src) {
    using B = typename K::type;
    Resources res;
    int nres = 1 + src.draw(3);
    for (int i = 0; i < nres; ++i)
        res.up.push_back(std::make_unique<ModelUpstream>(&src, i, ModelUpstream::Place::Separated));
    bool moved = false, rich = false;
    {
        std::vector<std::pair<std::optional<B>, Slot>> slots(6);
        auto verify = [&](std::pair<std::optional<B>, Slot> &s, bool fresh) {
            std::vector<Ext> exts;
            std::vector<std::pair<SZ *, SZ>> sizes;
            K::collect(*s.first, s.second.asked, exts, sizes);
            if (!fresh) {
                bool same = exts.size() == s.second.exts.size() && sizes == s.second.sizes;
                for (std::size_t i = 0; same && i < exts.size(); ++i)
                    same = exts[i].p == s.second.exts[i].p && exts[i].bytes == s.second.exts[i].bytes;
                PBT_CHECK(same, "a buffer describes other memory than before");
            }
            s.second.exts = exts;
            s.second.sizes = sizes;
            check_layout(s.second, res);
        };
        auto known = [&] {
            std::set<std::pair<int, uintptr_t>> all;
            for (auto &s : slots)
                all.insert(s.second.blocks.begin(), s.second.blocks.end());
            return all;
        };
        auto balance = [&](const char *when) {
            auto all = known();
            std::size_t n = 0;
            for (int i = 0; i < nres; ++i) {
                n += res.up[i]->live().size();
                for (auto &b : res.up[i]->live())
                    PBT_CHECK(all.count({i, b.first}), "%s: memory of a buffer that is gone was not given back", when);
            }
            PBT_CHECK(n == all.size(), "%s: memory of an existing buffer was given back", when);
        };
        int nops = 2 + src.draw(thorough() ? 30 : 14), pattern = 0;
        for (int op = 0; op < nops; ++op) {
            auto &s = slots[src.draw(slots.size())];
            switch (src.draw(8)) {
                case 0:
                case 1:
                case 2: {
                    Asked a;
                    a.empty = false;
                    a.main = src.draw(nres);
                    a.host = K::jagged ? static_cast<int>(src.draw(nres + 1)) - 1 : -1;
                    a.resizable = src.coin();
                    int scale = src.draw(8);
                    auto cap = [&]() -> std::size_t {
                        if (scale == 7)
                            return src.draw(K::jagged ? 4000 : 100000);
                        if (scale >= 5)
                            return src.draw(300);
                        return src.draw(12);
                    };
                    if constexpr (K::jagged) {
                        pbt::Details more(src, 300);
                        if (more.big()) {
                            std::size_t rows = 40 + more.draw(2000), most = 1 + more.draw(40);
                            for (std::size_t i = 0; i < rows; ++i)
                                a.caps.push_back(more.draw(most));
                        } else {
                            std::size_t rows = src.draw(src.chance(1, 8) ? 40 : 7);
                            for (std::size_t i = 0; i < rows; ++i)
                                a.caps.push_back(src.chance(1, 4) ? 0 : cap());
                        }
                    } else
                        a.caps.assign(scale == 7 && src.chance(1, 8) ? (1 << 18) - src.draw(8) : cap(), 0);
                    PBT_TRACE(src, "slot %d: new %s buffer of %zu (first %zu), resources %d %d", (int)(&s - &slots[0]),
                              a.resizable ? "resizable" : "fixed", a.rows(), a.caps.empty() ? 0 : a.caps[0], a.main,
                              a.host);
                    auto before = known();
                    bool assign = s.first.has_value() && src.coin();
                    std::vector<std::pair<int, uintptr_t>> mine;
                    {
                        B fresh = K::make(a, res, src);
                        for (int i = 0; i < nres; ++i)
                            for (auto &b : res.up[i]->live())
                                if (!before.count({i, b.first}))
                                    mine.emplace_back(i, b.first);
                        if (assign)
                            *s.first = std::move(fresh);
                        else
                            s.first.emplace(std::move(fresh));
                    }
                    s.second.forget();
                    s.second.asked = a;
                    s.second.blocks = mine;
                    verify(s, true);
                    pattern += s.second.exts.size() + 1;
                    s.second.pattern = pattern;
                    for (auto &z : s.second.sizes) {
                        SZ v = src.draw(std::uint64_t(z.second) + 1);
                        *z.first = v;
                        s.second.size_vals.push_back(v);
                    }
                    fill(s.second);
                    check_filled(s.second);
                    std::size_t filled = 0;
                    for (auto &e : s.second.exts)
                        filled += e.may_fill;
                    rich = rich || filled + s.second.sizes.size() >= 2;
                    break;
                }
                case 3:
                case 4: {
                    auto &t = slots[src.draw(slots.size())];
                    if (!s.first || &s == &t)
                        break;
                    bool assign = t.first.has_value();
                    PBT_TRACE(src, "move slot %d to slot %d", (int)(&s - &slots[0]), (int)(&t - &slots[0]));
                    if (assign)
                        *t.first = std::move(*s.first);
                    else
                        t.first.emplace(std::move(*s.first));
                    t.second = s.second;
                    s.second.forget();
                    // what a moved from buffer describes is not specified; it can be given a new value, or die
                    if (src.coin()) {
                        s.first.reset();
                    } else {
                        B empty;
                        *s.first = std::move(empty);
                    }
                    moved = true;
                    break;
                }
                case 5:
                    if (s.first) {
                        PBT_TRACE(src, "destroy slot %d", (int)(&s - &slots[0]));
                        s.first.reset();
                        s.second.forget();
                        moved = true;
                    }
                    break;
                case 6:
                    if (!s.first) {
                        PBT_TRACE(src, "default construct slot %d", (int)(&s - &slots[0]));
                        // over memory that is not zero
                        struct Dirty {
                            alignas(B) unsigned char m[sizeof(B)];
                        } dirty;
                        memset(dirty.m, 0x5c, sizeof dirty.m);
                        asm volatile("" : : "r"(dirty.m) : "memory");
                        B *b = new (dirty.m) B;
                        s.first.emplace(std::move(*b));
                        b->~B();
                        s.second.forget();
                    }
                    break;
                default:
                    break;
            }
            balance("after an operation");
            for (auto &x : slots)
                if (x.first) {
                    verify(x, false);
                    check_filled(x.second);
                }
            check_sticky();
        }
    }
    for (auto &u : res.up)
        u->expect_balanced("after all buffers are gone");
    if (moved && rich)
        src.nontrivial();
}
/// Buffers larger than the memory here: only where their arrays lie can be judged
template <typename T>
void untouchable(Src &src) {
    ModelUpstream main(&src, 0), host(&src, 1);
    if (!main.allow_huge())
        throw Discard{};
    main.fill = -1;
    buffer_type bt = src.coin() ? buffer_type::resizable : buffer_type::fixed_size;
    bool jagged = src.coin();
    std::vector<SZ> caps(jagged ? src.range(1, 5) : 1);
    std::size_t total = 0;
    for (SZ &c : caps) {
        c = jagged && src.chance(1, 5) ? 0 : hc::huge_count(src, sizeof(T));
        total += c * sizeof(T);
    }
    if (total <= HugeSpace::FROM)
        return;
    bool two = jagged && src.coin();
    PBT_TRACE(src, "%s %s buffer of type of %zu bytes, %zu row(s), first of %u elements",
              bt == buffer_type::resizable ? "resizable" : "fixed size", jagged ? "jagged" : "1D", sizeof(T),
              caps.size(), caps[0]);
    struct Part {
        uintptr_t a, b;
    };
    std::vector<Part> parts;
    auto add = [&](ModelUpstream &up, const void *p, std::size_t bytes, std::size_t align, const char *what) {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        PBT_CHECK(a % align == 0, "%s at %p is not aligned to %zu bytes", what, p, align);
        PBT_CHECK(up.contains(p, bytes), "%s: %zu bytes at %p do not lie in a block from the resource", what, bytes, p);
        parts.push_back({a, a + bytes});
    };
    auto row = [&](const vecmem::data::vector_view<T> &v, std::size_t i) {
        PBT_CHECK(v.capacity() == caps[i], "row %zu has capacity %u instead of %u", i, v.capacity(), caps[i]);
        PBT_CHECK((v.size_ptr() != nullptr) == (bt == buffer_type::resizable), "row %zu: unexpected size pointer", i);
        if (v.size_ptr())
            add(main, v.size_ptr(), sizeof(SZ), alignof(SZ), "size");
        if (caps[i] > 0)
            add(main, v.ptr(), caps[i] * sizeof(T), alignof(T), "row");
    };
    auto disjoint = [&] {
        std::sort(parts.begin(), parts.end(), [](const Part &x, const Part &y) { return x.a < y.a; });
        for (std::size_t i = 1; i < parts.size(); ++i)
            PBT_CHECK(parts[i - 1].b <= parts[i].a, "two arrays of a buffer overlap");
    };
    src.label("untouchable memory");
    src.nontrivial();
    {
        if (!jagged) {
            vecmem::data::vector_buffer<T> b(caps[0], main, bt);
            row(b, 0);
            disjoint();
        } else {
            vecmem::data::jagged_vector_buffer<T> b(caps, main, two ? &host : nullptr, bt);
            PBT_CHECK(b.size() == caps.size(), "the buffer has %zu rows", static_cast<std::size_t>(b.size()));
            std::size_t bytes = caps.size() * sizeof(vecmem::data::vector_view<T>);
            add(two ? host : main, b.host_ptr(), bytes, alignof(vecmem::data::vector_view<T>), "host layout");
            if (two)
                add(main, b.ptr(), bytes, alignof(vecmem::data::vector_view<T>), "device layout");
            for (std::size_t i = 0; i < caps.size(); ++i)
                row(b.host_ptr()[i], i);
            disjoint();
        }
    }
    main.expect_balanced("after the buffer was destroyed");
    host.expect_balanced("after the buffer was destroyed");
}
}  // namespace

void run(Src &src) {
    if (src.draw(16) == 1)
        return hc::with_type(src, [&](auto t) { untouchable<decltype(t)>(src); });
    using P7 = Pod<7, 1>;
    using P64 = Pod<64, 64>;
    using P32 = Pod<96, 32>;
    switch (src.draw(18)) {
        case 0:
            return history<Vec<int>>(src);
        case 1:
            return history<Vec<char>>(src);
        case 2:
            return history<Vec<P64>>(src);
        case 3:
            return history<Vec<P7>>(src);
        case 4:
            return history<Jag<int>>(src);
        case 5:
            return history<Jag<char>>(src);
        case 6:
            return history<Jag<double>>(src);
        case 7:
            return history<Jag<P64>>(src);
        case 8:
            return history<Soa<vt::vector<int>, vt::vector<double>, vt::vector<char>>>(src);
        case 9:
            return history<Soa<vt::scalar<char>, vt::vector<P7>, vt::scalar<double>, vt::vector<float>>>(src);
        case 10:
            return history<Soa<vt::jagged_vector<char>, vt::scalar<float>, vt::vector<short>, vt::jagged_vector<double>>>(
                src);
        case 11:
            return history<Soa<vt::scalar<int>, vt::jagged_vector<int>>>(src);
        case 12:
            return history<Soa<vt::jagged_vector<P7>>>(src);
        case 13:
            return history<Soa<vt::vector<P64>, vt::scalar<char>, vt::vector<char>>>(src);
        case 14:
            return history<Soa<vt::scalar<char>, vt::jagged_vector<P32>, vt::vector<P64>, vt::jagged_vector<char>,
                               vt::scalar<P64>>>(src);
        case 15:
            return history<Soa<vt::vector<char>, vt::scalar<char>, vt::vector<int>, vt::scalar<short>, vt::vector<P7>,
                               vt::vector<double>>>(src);
        case 16:
            return history<Soa<vt::vector<uint64_t>>>(src);
        default:
            return history<Soa<vt::jagged_vector<short>, vt::jagged_vector<float>, vt::jagged_vector<double>,
                               vt::vector<char>>>(src);
    }
}
}  // namespace harness
