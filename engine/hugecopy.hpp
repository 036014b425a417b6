// Copies and fills of containers far larger than the memory here: their elements lie at addresses that nothing can
// touch (HugeSpace), and a recording backend keeps the raw operations, which are judged by where they start and end.
#pragma once
#include <algorithm>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>

#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/edm/buffer.hpp>
#include <vecmem/edm/schema.hpp>
#include <vecmem/edm/view.hpp>
#include <vecmem/utils/copy.hpp>

#include "types.hpp"
#include "upstream.hpp"

namespace pbt {
namespace hc {
using SZ = unsigned int;
using CT = vecmem::copy::type;

/// Keeps operations on untouchable memory, performs those on real memory
class Recorder : public vecmem::copy {
public:
    struct Op {
        bool set;
        uintptr_t from, to;
        std::size_t n;
        int value;
    };
    mutable std::vector<Op> ops;
    /// Areas of the untouchable memory whose contents are kept
    struct Area {
        uintptr_t at;
        std::vector<unsigned char> bytes;
    };
    mutable std::vector<Area> areas;
    void keep(const void *p, std::size_t n) {
        if (n > 0)
            areas.push_back({reinterpret_cast<uintptr_t>(p), std::vector<unsigned char>(n, 0xa5)});
    }
    /// The bytes kept for some address (null: not kept)
    unsigned char *kept(uintptr_t p, std::size_t n) const {
        for (Area &a : areas)
            if (p >= a.at && p < a.at + a.bytes.size()) {
                PBT_CHECK(n <= a.at + a.bytes.size() - p, "an operation on %zu bytes at %p exceeds the %zu bytes there",
                          n, reinterpret_cast<void *>(p), a.bytes.size());
                return a.bytes.data() + (p - a.at);
            }
        return nullptr;
    }

protected:
    void do_copy(std::size_t n, const void *from, void *to, CT::copy_type ct) const override {
        uintptr_t f = reinterpret_cast<uintptr_t>(from), t = reinterpret_cast<uintptr_t>(to);
        unsigned char *kf = kept(f, n), *kt = kept(t, n);
        bool hf = HugeSpace::holds(f) && !kf, ht = HugeSpace::holds(t) && !kt;
        if (!hf && !ht)
            return vecmem::copy::do_copy(n, kf ? kf : from, kt ? kt : to, ct);
        PBT_CHECK(hf && ht, "a copy of %zu bytes mixes elements and sizes", n);
        ops.push_back({false, f, t, n, 0});
    }
    void do_memset(std::size_t n, void *to, int value) const override {
        uintptr_t t = reinterpret_cast<uintptr_t>(to);
        if (unsigned char *k = kept(t, n))
            return vecmem::copy::do_memset(n, k, value);
        if (!HugeSpace::holds(t))
            return vecmem::copy::do_memset(n, to, value);
        ops.push_back({true, 0, t, n, value});
    }
};

/// An array of elements, and how much of it has to be written (from where)
struct Row {
    uintptr_t from, to;
    std::size_t need, from_room, to_room;
};

/// Are [p, p+n) bytes inside the union of the arrays?
template <typename F>
bool inside(uintptr_t p, std::size_t n, const std::vector<Row> &rows, F &&range) {
    std::vector<std::pair<uintptr_t, uintptr_t>> v;
    for (const Row &r : rows)
        v.push_back(range(r));
    std::sort(v.begin(), v.end());
    uintptr_t e = p + n;
    if (e < p)
        return false;
    for (auto &[a, b] : v)
        if (p >= a && p < b)
            p = b;
    return p >= e;
}

/// Judge the recorded operations: they write all that was asked for, from the right places, and nothing else
inline void judge(Src &src, const Recorder &rec, const std::vector<Row> &rows, bool set, int value, const char *what) {
    for (const auto &op : rec.ops) {
        PBT_TRACE(src, "  %s %#zx -> %#zx, %#zx bytes", op.set ? "set" : "copied", static_cast<std::size_t>(op.from),
                  static_cast<std::size_t>(op.to), op.n);
        PBT_CHECK(op.set == set, "%s: wrong kind of operation", what);
        if (op.n == 0)
            continue;
        PBT_CHECK(inside(op.to, op.n, rows, [](const Row &r) { return std::make_pair(r.to, r.to + r.to_room); }),
                  "%s: %zu bytes written to %p, not all of which belong to the target", what, op.n,
                  reinterpret_cast<void *>(op.to));
        if (set)
            PBT_CHECK((op.value & 0xff) == (value & 0xff), "%s: memory set to %d instead of %d", what, op.value, value);
        else
            PBT_CHECK(inside(op.from, op.n, rows,
                             [](const Row &r) { return std::make_pair(r.from, r.from + r.from_room); }),
                      "%s: %zu bytes read from %p, not all of which belong to the source", what, op.n,
                      reinterpret_cast<void *>(op.from));
    }
    for (std::size_t i = 0; i < rows.size(); ++i) {
        const Row &r = rows[i];
        std::vector<std::pair<uintptr_t, uintptr_t>> got;
        for (const auto &op : rec.ops) {
            uintptr_t a = std::max(op.to, r.to), b = std::min(op.to + op.n, r.to + r.need);
            if (a >= b)
                continue;
            if (!set)
                PBT_CHECK(op.to - op.from == r.to - r.from,
                          "%s: row %zu is written from a wrong place (%p instead of %p)", what, i,
                          reinterpret_cast<void *>(op.from + (a - op.to)),
                          reinterpret_cast<void *>(r.from + (a - r.to)));
            got.emplace_back(a, b);
        }
        std::sort(got.begin(), got.end());
        uintptr_t p = r.to;
        for (auto &[a, b] : got)
            if (a <= p && b > p)
                p = b;
        PBT_CHECK(p >= r.to + r.need, "%s: only %zu of the %zu bytes of row %zu were written", what,
                  static_cast<std::size_t>(p - r.to), r.need, i);
    }
}

/// Numbers of elements for which the size in bytes passes 2^31 or 2^32, or nearly does
inline SZ huge_count(Src &src, std::size_t elem) {
    constexpr uint64_t MAX = 0xffffffffull;
    uint64_t n;
    switch (src.draw(6)) {
        case 0:
            n = (uint64_t(1) << (31 + src.draw(3))) / elem + src.draw(5) - 2;
            break;
        case 1:
            n = (uint64_t(1) << (31 + src.draw(3))) / elem * (1 + src.draw(4)) + src.draw(1000);
            break;
        case 2:
            n = MAX - src.draw(3);
            break;
        case 3:
            n = (uint64_t(1) << 31) + src.draw(3) - 1;
            break;
        case 4:
            n = src.draw(uint64_t(1) << (1 + src.draw(32)));
            break;
        default:
            n = src.draw(uint64_t(1) << 32);
    }
    return static_cast<SZ>(std::min(n, MAX));
}

/// Addresses for arrays of elements: behind each other, or with gaps
struct Placer {
    Src &src;
    uintptr_t p, end;
    bool gaps;
    Placer(Src &s, int k, bool g) : src(s), p(HugeSpace::get(k) + 4096), end(p + HugeSpace::SIZE - 8192), gaps(g) {}
    uintptr_t take(std::size_t n, std::size_t align) {
        if (gaps && src.coin())
            p += src.range(1, 1000);
        p = (p + align - 1) / align * align;
        uintptr_t r = p;
        if (n > end - p)
            throw Discard{};
        p += n;
        return r;
    }
};

/// A jagged (or, with a single row, 1D) container in untouchable memory
template <typename T>
struct Huge {
    using View = vecmem::data::vector_view<T>;
    std::vector<SZ> caps, sizes;
    std::vector<uintptr_t> at;
    std::vector<View> views;
    bool resizable = false;
    void make(Src &src, int space, const std::vector<SZ> &c, bool gaps) {
        caps = c;
        Placer pl(src, space, gaps);
        resizable = src.coin();
        sizes = caps;
        for (std::size_t i = 0; i < caps.size(); ++i) {
            at.push_back(pl.take(caps[i] * sizeof(T), alignof(T)));
            if (resizable && src.coin())
                sizes[i] = src.coin() ? static_cast<SZ>(src.draw(uint64_t(caps[i]) + 1))
                                      : caps[i] - static_cast<SZ>(src.draw(std::min<uint64_t>(caps[i], 3) + 1));
            if (src.tracing())
                src.trace("  row at %#zx: capacity %u%s%s", static_cast<std::size_t>(at.back()), caps[i],
                          resizable ? " size " : "", resizable ? std::to_string(sizes[i]).c_str() : "");
        }
        for (std::size_t i = 0; i < caps.size(); ++i) {
            T *p = reinterpret_cast<T *>(at[i]);
            if (resizable)
                views.emplace_back(caps[i], &sizes[i], p);
            else
                views.emplace_back(caps[i], p);
        }
    }
    vecmem::data::jagged_vector_view<T> jagged() {
        return vecmem::data::jagged_vector_view<T>(views.size(), views.data(), views.data());
    }
};

inline CT::copy_type any_type(Src &src) {
    return src.pick({CT::unknown, CT::host_to_host, CT::host_to_device, CT::device_to_host, CT::device_to_device});
}

inline bool usable() { return HugeSpace::get(0) && HugeSpace::get(1); }

template <typename T>
std::vector<Row> rows_of(const Huge<T> &from, const Huge<T> &to) {
    std::vector<Row> rows;
    for (std::size_t i = 0; i < to.caps.size(); ++i) {
        if (i < from.caps.size())
            rows.push_back({from.at[i], to.at[i], from.sizes[i] * sizeof(T), from.caps[i] * sizeof(T),
                            to.caps[i] * sizeof(T)});
        else
            rows.push_back({from.at[0], to.at[i], 0, 0, to.caps[i] * sizeof(T)});
    }
    return rows;
}

/// Target capacities for some source
inline SZ target_cap(Src &src, SZ cap, SZ size) {
    switch (src.draw(6)) {
        case 0:
        case 1:
            return cap;
        case 2:
            return size;
        case 3:
            return size < 0xffffffffu ? size + 1 : size;
        case 4:
            return size > 0 && src.chance(1, 4) ? size - 1 : size;
        default:
            return static_cast<SZ>(size + src.draw(uint64_t(0xffffffffu) - size + 1));
    }
}

enum Shape { ONE_D, JAGGED };

/// A copy into another view, or into a new buffer
template <typename T>
void copy_case(Src &src, Shape shape) {
    std::size_t n = shape == ONE_D ? 1 : src.range(1, 4);
    std::vector<SZ> caps;
    for (std::size_t i = 0; i < n; ++i)
        caps.push_back(shape == JAGGED && src.chance(1, 5) ? 0 : huge_count(src, sizeof(T)));
    PBT_TRACE(src, "elements of %zu bytes; source:", sizeof(T));
    Huge<T> from;
    from.make(src, 0, caps, src.coin());
    CT::copy_type ct = any_type(src);
    Recorder rec;
    vecmem::data::jagged_vector_view<T> jf = from.jagged();
    std::size_t bytes = 0;
    for (SZ s : from.sizes)
        bytes = std::max(bytes, s * sizeof(T));
    if (bytes > (std::size_t(1) << 32))
        src.label("more than 4 GiB");
    src.nontrivial();
    if (shape == ONE_D)
        PBT_CHECK(rec.get_size(from.views[0]) == from.sizes[0], "size of the view read as %u instead of %u",
                  rec.get_size(from.views[0]), from.sizes[0]);
    else {
        auto got = rec.get_sizes(jf);
        PBT_CHECK(got == from.sizes, "the sizes of the rows were read wrongly");
    }
    if (src.chance(1, 3)) {
        // a new buffer
        ModelUpstream up(&src, 1), host(&src, 2);
        if (!up.allow_huge())
            return;
        up.fill = -1;
        Huge<T> to;
        to.caps = from.sizes;
        auto check = [&](auto &rows_begin) {
            for (std::size_t i = 0; i < n; ++i) {
                PBT_CHECK(rows_begin[i].capacity() == from.sizes[i], "row %zu of the copy has capacity %u, not %u", i,
                          rows_begin[i].capacity(), from.sizes[i]);
                uintptr_t p = reinterpret_cast<uintptr_t>(rows_begin[i].ptr());
                if (from.sizes[i] > 0)
                    PBT_CHECK(p % alignof(T) == 0 && up.contains(rows_begin[i].ptr(), from.sizes[i] * sizeof(T)),
                              "row %zu of the copy (%zu bytes at %p) does not lie in memory from its resource", i,
                              from.sizes[i] * sizeof(T), reinterpret_cast<void *>(p));
                to.at.push_back(p);
            }
        };
        // small buffers would be in real memory: that is what all the other cases are about
        std::size_t total = 0;
        for (SZ s : from.sizes)
            total += s * sizeof(T);
        if (total <= HugeSpace::FROM)
            return;
        PBT_TRACE(src, "copy to a new buffer");
        if (shape == ONE_D) {
            auto buf = rec.to(from.views[0], up, ct);
            vecmem::data::vector_view<T> *v = &buf;
            check(v);
            judge(src, rec, rows_of(from, to), false, 0, "copy to a new buffer");
        } else {
            auto buf = rec.to(jf, up, src.coin() ? &host : nullptr, ct);
            auto *v = buf.host_ptr();
            PBT_CHECK(buf.size() == n, "the copy has %zu rows", static_cast<std::size_t>(buf.size()));
            check(v);
            judge(src, rec, rows_of(from, to), false, 0, "copy to a new buffer");
        }
        return;
    }
    std::vector<SZ> tcaps;
    bool same = src.coin(), fits = true;
    for (std::size_t i = 0; i < n; ++i) {
        tcaps.push_back(same ? caps[i] : target_cap(src, caps[i], from.sizes[i]));
        fits = fits && tcaps.back() >= from.sizes[i];
    }
    PBT_TRACE(src, "target:");
    Huge<T> to;
    to.make(src, 1, tcaps, src.coin());
    std::vector<SZ> before = to.sizes;
    bool refused = throws<std::length_error>([&] {
        if (shape == ONE_D)
            rec(from.views[0], to.views[0], ct)->wait();
        else
            rec(jf, to.jagged(), ct)->wait();
    });
    PBT_CHECK(refused == !fits, "a copy that %s was %s", fits ? "fits" : "does not fit",
              refused ? "refused" : "not refused");
    if (refused) {
        src.label("refused");
        PBT_CHECK(rec.ops.empty(), "a refused copy moved elements");
        PBT_CHECK(to.sizes == before, "a refused copy changed sizes");
        return;
    }
    if (to.resizable)
        PBT_CHECK(to.sizes == from.sizes, "the target of a copy has a wrong size (%u instead of %u)", to.sizes[0],
                  from.sizes[0]);
    judge(src, rec, rows_of(from, to), false, 0, "copy");
}

template <typename T>
void fill_case(Src &src, Shape shape) {
    std::size_t n = shape == ONE_D ? 1 : src.range(1, 4);
    std::vector<SZ> caps;
    for (std::size_t i = 0; i < n; ++i)
        caps.push_back(shape == JAGGED && src.chance(1, 5) ? 0 : huge_count(src, sizeof(T)));
    PBT_TRACE(src, "elements of %zu bytes; filled:", sizeof(T));
    Huge<T> to;
    to.make(src, 0, caps, src.coin());
    Recorder rec;
    int value = static_cast<int>(src.draw(256));
    src.nontrivial();
    std::vector<SZ> before = to.sizes;
    bool setup = src.chance(1, 4);
    if (setup) {
        if (shape == ONE_D)
            rec.setup(to.views[0])->wait();
        else
            rec.setup(to.jagged())->wait();
        PBT_CHECK(rec.ops.empty(), "setup wrote into the elements");
        if (to.resizable)
            PBT_CHECK(to.sizes == std::vector<SZ>(n, 0u), "setup left a size");
        before = to.sizes;
    }
    if (shape == ONE_D)
        rec.memset(to.views[0], value)->wait();
    else
        rec.memset(to.jagged(), value)->wait();
    PBT_CHECK(to.sizes == before, "memset changed a size");
    std::vector<Row> rows;
    for (std::size_t i = 0; i < n; ++i)
        rows.push_back({0, to.at[i], caps[i] * sizeof(T), 0, caps[i] * sizeof(T)});
    judge(src, rec, rows, true, value, "memset");
}

template <typename F>
void with_type(Src &src, F &&f) {
    switch (src.draw(6)) {
        case 0:
            return f(char());
        case 1:
            return f(short());
        case 2:
            return f(double());
        case 3:
            return f(Pod<64, 64>());
        case 4:
            return f(Pod<3, 1>());
        default:
            return f(int());
    }
}

inline void any_copy(Src &src, Shape shape) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    with_type(src, [&](auto t) { copy_case<decltype(t)>(src, shape); });
}
inline void any_fill(Src &src, Shape shape) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    with_type(src, [&](auto t) { fill_case<decltype(t)>(src, shape); });
}

namespace vt = vecmem::edm::type;

/// Find the arrays of a variable of an SoA buffer
template <typename T>
void arrays(T *scalar, std::vector<std::pair<uintptr_t, std::size_t>> &out) {
    out.emplace_back(reinterpret_cast<uintptr_t>(scalar), sizeof(T));
}
template <typename T>
void arrays(const vecmem::data::vector_view<T> &v, std::vector<std::pair<uintptr_t, std::size_t>> &out) {
    out.emplace_back(reinterpret_cast<uintptr_t>(v.ptr()), v.capacity() * sizeof(T));
}
template <typename T>
void arrays(const vecmem::data::jagged_vector_view<T> &v, std::vector<std::pair<uintptr_t, std::size_t>> &out) {
    for (std::size_t i = 0; i < v.size(); ++i)
        arrays(v.host_ptr()[i], out);
}
template <typename V, std::size_t... I>
std::vector<std::pair<uintptr_t, std::size_t>> all_arrays(V &view, std::index_sequence<I...>) {
    std::vector<std::pair<uintptr_t, std::size_t>> out;
    (arrays(view.template get<I>(), out), ...);
    return out;
}

/// Copies and fills of SoA buffers
template <typename... VARS>
void soa_buffers(Src &src, bool fill, const std::vector<SZ> &caps) {
    constexpr bool jagged = std::disjunction_v<vecmem::edm::type::details::is_jagged_vector<VARS>...>;
    using Schema = vecmem::edm::schema<VARS...>;
    using Buffer = vecmem::edm::buffer<Schema>;
    using vecmem::data::buffer_type;
    constexpr auto idx = std::index_sequence_for<VARS...>{};
    ModelUpstream main[2] = {ModelUpstream(&src, 0), ModelUpstream(&src, 1)};
    ModelUpstream host[2] = {ModelUpstream(&src, 2), ModelUpstream(&src, 3)};
    Recorder rec;
    auto make = [&](int k, bool resizable, const std::vector<SZ> &c) {
        main[k].allow_huge();
        main[k].fill = -1;
        buffer_type bt = resizable ? buffer_type::resizable : buffer_type::fixed_size;
        Buffer b;
        if constexpr (jagged)
            b = Buffer(c, main[k], &host[k], bt);
        else
            b = Buffer(static_cast<SZ>(c.size()), main[k], bt);
        PBT_CHECK(main[k].live().size() == 1, "an SoA buffer took %zu blocks", main[k].live().size());
        if (HugeSpace::holds(main[k].live().begin()->first)) {
            rec.keep(b.layout().ptr(), b.layout().capacity());
            rec.keep(b.size().ptr(), b.size().capacity());
        }
        return b;
    };
    bool fres = src.coin();
    PBT_TRACE(src, "SoA buffer with %zu variables, %zu row(s), first of %u elements%s", sizeof...(VARS), caps.size(),
              caps.empty() ? 0u : caps[0], fres ? ", resizable" : "");
    Buffer from = make(0, fres, caps);
    auto fa = all_arrays(from, idx);
    std::size_t total = main[0].live().begin()->second.size;
    if (total > (std::size_t(1) << 32))
        src.label("more than 4 GiB");
    // the contents must be out of reach, or they would have to be judged differently
    if (total <= HugeSpace::FROM)
        return;
    src.nontrivial();
    rec.setup(from)->wait();
    PBT_CHECK(rec.ops.empty(), "setup wrote into the elements");
    if (fill) {
        int value = static_cast<int>(src.draw(256));
        rec.memset(from, value)->wait();
        std::vector<Row> rows;
        for (auto &[p, n] : fa)
            rows.push_back({0, p, n, 0, n});
        // padding between the arrays belongs to the container as well
        rows.push_back({0, main[0].live().begin()->first, 0, 0, total});
        judge(src, rec, rows, true, value, "memset");
        return;
    }
    // the sizes of a resizable source
    std::vector<SZ> sizes = caps;
    if constexpr (jagged) {
        if (fres) {
            for (SZ &s : sizes)
                if (src.coin())
                    s = static_cast<SZ>(src.draw(uint64_t(s) + 1));
            [&]<std::size_t... I>(std::index_sequence<I...>) {
                auto one = [&](auto &v) {
                    if constexpr (!std::is_pointer_v<std::remove_reference_t<decltype(v)>>)
                        if constexpr (!std::is_same_v<typename std::decay_t<decltype(v)>::size_type, SZ>)
                            rec.set_sizes(sizes, v)->wait();
                };
                (one(from.template get<I>()), ...);
            }(idx);
        }
    }
    bool tres = src.coin();
    Buffer to = make(1, tres, caps);
    rec.setup(to)->wait();
    auto ta = all_arrays(to, idx);
    PBT_TRACE(src, "target%s", tres ? ", resizable" : "");
    // how much must arrive
    std::vector<std::size_t> need;
    {
        auto one = [&](auto &v) {
            using V = std::decay_t<decltype(v)>;
            if constexpr (std::is_pointer_v<V>)
                need.push_back(sizeof(*v));
            else if constexpr (std::is_same_v<typename V::size_type, SZ>)
                need.push_back(jagged || !fres ? v.capacity() * sizeof(*v.ptr()) : 0);
            else
                for (std::size_t i = 0; i < v.size(); ++i)
                    need.push_back(sizes[i] * sizeof(*v.host_ptr()[i].ptr()));
        };
        [&]<std::size_t... I>(std::index_sequence<I...>) { (one(from.template get<I>()), ...); }(idx);
    }
    vecmem::edm::view<vecmem::edm::details::add_const_t<Schema>> cfrom = vecmem::get_data(std::as_const(from));
    vecmem::edm::view<Schema> tv = vecmem::get_data(to);
    rec(cfrom, tv, any_type(src))->wait();
    std::vector<Row> rows;
    for (std::size_t i = 0; i < fa.size(); ++i)
        rows.push_back({fa[i].first, ta[i].first, need[i], fa[i].second, ta[i].second});
    rows.push_back({main[0].live().begin()->first, main[1].live().begin()->first, 0, total,
                    main[1].live().begin()->second.size});
    judge(src, rec, rows, false, 0, "copy");
    if constexpr (jagged)
        if (tres) {
            auto one = [&](auto &v) {
                if constexpr (!std::is_pointer_v<std::remove_reference_t<decltype(v)>>)
                    if constexpr (!std::is_same_v<typename std::decay_t<decltype(v)>::size_type, SZ>)
                        PBT_CHECK(rec.get_sizes(v) == sizes, "the rows of the target have wrong sizes");
            };
            [&]<std::size_t... I>(std::index_sequence<I...>) { (one(to.template get<I>()), ...); }(idx);
        }
}

/// SoA containers made of separate arrays, or of a single piece of memory
inline void any_soa(Src &src, bool fill) {
    if (!usable())
        throw Discard{};
    src.label("untouchable memory");
    switch (src.draw(6)) {
        case 1: {
            std::vector<SZ> caps(src.range(1, 4));
            for (SZ &c : caps)
                c = src.chance(1, 5) ? 0 : huge_count(src, 8);
            return soa_buffers<vt::scalar<int>, vt::vector<double>, vt::jagged_vector<char>,
                               vt::jagged_vector<Pod<64, 64>>>(src, fill, caps);
        }
        case 2: {
            std::vector<SZ> caps(src.range(1, 4));
            for (SZ &c : caps)
                c = src.chance(1, 5) ? 0 : huge_count(src, 8);
            return soa_buffers<vt::jagged_vector<double>, vt::scalar<char>>(src, fill, caps);
        }
        case 3:
            if (src.chance(1, 8))
                return soa_buffers<vt::vector<Pod<16384, 64>>, vt::scalar<char>, vt::vector<int>>(
                    src, fill, std::vector<SZ>((std::size_t(1) << (15 + src.draw(5))) + src.draw(3), 0u));
            break;
        default:
            break;
    }
    using A = char;
    using B = double;
    using C = Pod<64, 64>;
    using Schema = vecmem::edm::schema<vt::vector<A>, vt::vector<B>, vt::vector<C>>;
    SZ cap = huge_count(src, src.pick({1, 8, 64}));
    auto make = [&](int space, SZ c, SZ *size, std::vector<uintptr_t> &at) {
        Placer pl(src, space, src.coin());
        vecmem::data::vector_view<char> sv(size ? sizeof(SZ) : 0u, reinterpret_cast<char *>(size));
        vecmem::edm::view<Schema> v(c, sv);
        at = {pl.take(c * sizeof(A), alignof(A)), pl.take(c * sizeof(B), alignof(B)), pl.take(c * sizeof(C), alignof(C))};
        auto one = [&](auto *p) {
            using T = std::remove_pointer_t<decltype(p)>;
            return size ? vecmem::data::vector_view<T>(c, size, p) : vecmem::data::vector_view<T>(c, p);
        };
        v.get<0>() = one(reinterpret_cast<A *>(at[0]));
        v.get<1>() = one(reinterpret_cast<B *>(at[1]));
        v.get<2>() = one(reinterpret_cast<C *>(at[2]));
        return v;
    };
    std::size_t width[3] = {sizeof(A), sizeof(B), sizeof(C)};
    SZ fsize = src.coin() ? cap : static_cast<SZ>(src.draw(uint64_t(cap) + 1));
    bool fres = src.coin();
    if (!fres)
        fsize = cap;
    std::vector<uintptr_t> fa, ta;
    auto from = make(0, cap, fres ? &fsize : nullptr, fa);
    Recorder rec;
    src.nontrivial();
    PBT_TRACE(src, "SoA container of char, double and a type of 64 bytes, capacity %u size %u%s", cap, fsize,
              fres ? ", resizable" : "");
    if (fill) {
        int value = static_cast<int>(src.draw(256));
        rec.memset(from, value)->wait();
        std::vector<Row> rows;
        for (int i = 0; i < 3; ++i)
            rows.push_back({0, fa[i], cap * width[i], 0, cap * width[i]});
        judge(src, rec, rows, true, value, "memset");
        return;
    }
    SZ tcap = target_cap(src, cap, fsize), tsize = src.coin() ? tcap : 0;
    bool tres = src.coin();
    auto to = make(1, tcap, tres ? &tsize : nullptr, ta);
    PBT_TRACE(src, "target of capacity %u%s", tcap, tres ? ", resizable" : "");
    PBT_CHECK(rec.get_size(from) == fsize, "size read as %u instead of %u", rec.get_size(from), fsize);
    vecmem::edm::view<vecmem::edm::details::add_const_t<Schema>> cfrom(from);
    bool fits = tcap >= fsize;
    bool refused = throws<std::length_error>([&] { rec(cfrom, to, any_type(src))->wait(); });
    PBT_CHECK(refused == !fits, "a copy that %s was %s", fits ? "fits" : "does not fit",
              refused ? "refused" : "not refused");
    if (refused)
        return;
    if (tres)
        PBT_CHECK(tsize == fsize, "the target of a copy has size %u instead of %u", tsize, fsize);
    std::vector<Row> rows;
    for (int i = 0; i < 3; ++i)
        rows.push_back({fa[i], ta[i], fsize * width[i], cap * width[i], tcap * width[i]});
    judge(src, rec, rows, false, 0, "copy");
}

}  // namespace hc
}  // namespace pbt
