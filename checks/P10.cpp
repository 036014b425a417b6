// Views and (jagged) device vectors against the data they were made from: addresses, sizes, values,
// iterators and comparison, along random chains of copies and conversions.
// check: lib=memory,utils
// assume: the underlying host vector is not resized while views of it are in use
#include <vecmem/containers/array.hpp>
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/jagged_vector_data.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_array.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/containers/jagged_vector.hpp>
#include <vecmem/containers/vector.hpp>
#include <vecmem/utils/copy.hpp>

#include <memory>

#include "hugeview.hpp"
#include "stack.hpp"
#include "types.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P10";
const char *const rule =
    "random (jagged) host vectors, arrays, hand-made views and buffers (fixed and resizable, with one or two "
    "resources), random chains of views, constant views and device vectors made from them by copying, "
    "converting and assigning, with writes and appends through one handle and reads, iterator walks and "
    "comparisons through others; non-trivial: at least 3 handles, an element written through one and read "
    "through another, and for jagged data at least 2 rows of different sizes; 1 case in 24: rows at untouchable addresses, or up to 2^36 rows";
const uint64_t quick_cases = 1500000;
const uint64_t thorough_cases = 18000000;

namespace {
using SZ = unsigned int;

/// What a one-dimensional view should describe
template <typename T>
struct Row {
    T *ptr = nullptr;
    SZ capacity = 0;
    SZ *size_ptr = nullptr;
    std::vector<uint64_t> ref;
    bool resizable() const { return size_ptr != nullptr; }
};

template <typename T, typename V>
void check_view(V &v, const Row<T> &r, const char *what) {
    PBT_CHECK(v.ptr() == r.ptr, "%s points to %p instead of %p", what, (const void *)v.ptr(), (const void *)r.ptr);
    PBT_CHECK(v.capacity() == r.capacity, "%s has capacity %u instead of %u", what, v.capacity(), r.capacity);
    PBT_CHECK(v.size() == r.ref.size(), "%s has size %u instead of %zu", what, v.size(), r.ref.size());
    PBT_CHECK(v.size_ptr() == r.size_ptr, "%s has the wrong size pointer", what);
}
template <typename T, typename V>
void check_device(Src &src, V &v, const Row<T> &r, const char *what) {
    const V &c = v;
    std::size_t n = r.ref.size();
    PBT_CHECK(v.size() == n && v.empty() == (n == 0), "%s has size %u instead of %zu", what, v.size(), n);
    PBT_CHECK(v.capacity() == r.capacity && v.max_size() == r.capacity, "%s has capacity %u instead of %u", what,
              v.capacity(), r.capacity);
    PBT_CHECK(v.data() == r.ptr && c.data() == r.ptr, "%s points to %p instead of %p", what, (const void *)v.data(),
              (const void *)r.ptr);
    for (std::size_t j = 0; j < n; ++j) {
        PBT_CHECK(&v[j] == r.ptr + j && &c[j] == r.ptr + j && &v.at(j) == r.ptr + j && &c.at(j) == r.ptr + j,
                  "%s: element %zu is at the wrong place", what, j);
        PBT_CHECK(val(v[j]) == r.ref[j], "%s: element %zu has the wrong value", what, j);
    }
    if (n > 0)
        PBT_CHECK(&v.front() == r.ptr && &c.front() == r.ptr && &v.back() == r.ptr + (n - 1) &&
                      &c.back() == r.ptr + (n - 1),
                  "%s: front or back", what);
    const T *base = r.ptr;
    auto at = [base](std::size_t i) { return base + i; };
    switch (src.draw(6)) {
        case 0:
            return walk(src, v.begin(), v.end(), n, false, at, what);
        case 1:
            return walk(src, c.begin(), c.end(), n, false, at, what);
        case 2:
            return walk(src, v.rbegin(), v.rend(), n, true, at, what);
        case 3:
            return walk(src, c.crbegin(), c.crend(), n, true, at, what);
        default:
            break;
    }
}

/// Write or append through a device vector
template <typename T>
bool modify(Src &src, vecmem::device_vector<T> &v, Row<T> &r) {
    std::size_t n = r.ref.size();
    uint64_t x = src.draw(30000);
    const T t = Conv<T>::make(x);
    if (r.resizable() && src.chance(1, 3)) {
        if (n < r.capacity && src.coin()) {
            PBT_TRACE(src, "  push_back");
            SZ where = v.push_back(t);
            PBT_CHECK(where == n, "push_back returned %u instead of %zu", where, n);
            r.ref.push_back(norm<T>(x));
        } else if (n > 0) {
            PBT_TRACE(src, "  pop_back");
            v.pop_back();
            r.ref.pop_back();
        }
        return true;
    }
    if (n == 0)
        return false;
    std::size_t i = src.draw(n);
    PBT_TRACE(src, "  write element %zu", i);
    switch (src.draw(7)) {
        case 0:
            v[i] = t;
            break;
        case 1:
            v.at(i) = t;
            break;
        case 2:
            v.begin()[i] = t;
            break;
        case 3:
            *(v.end() - (n - i)) = t;
            break;
        case 4:
            v.rbegin()[n - 1 - i] = t;
            break;
        case 5:
            v.data()[i] = t;
            break;
        default:
            if (src.coin()) {
                i = 0;
                v.front() = t;
            } else {
                i = n - 1;
                v.back() = t;
            }
    }
    r.ref[i] = norm<T>(x);
    return true;
}

/// Something that owns one-dimensional data
template <typename T>
struct Source1 {
    std::unique_ptr<vecmem::vector<T>> vec;
    std::unique_ptr<std::vector<T>> svec;
    std::unique_ptr<vecmem::array<T>> arr;
    std::unique_ptr<vecmem::array<T, 5>> arr5;
    std::unique_ptr<vecmem::data::vector_buffer<T>> buf;
    std::vector<T> raw;
    SZ raw_size = 0;
    Row<T> row;
    vecmem::data::vector_view<T> view{0, nullptr};
    vecmem::data::vector_view<const T> cview{0, nullptr};

    template <typename C>
    void fill(Details &src, C &c, std::size_t n) {
        for (std::size_t i = 0; i < n; ++i) {
            uint64_t x = src.draw(1000);
            c[i] = Conv<T>::make(x);
            row.ref.push_back(norm<T>(x));
        }
    }
    template <typename C>
    void take(C &c) {
        const C &cc = c;
        view = vecmem::get_data(c);
        cview = vecmem::get_data(cc);
        row.ptr = c.data();
        row.capacity = row.ref.size();
    }
    Source1(Src &src, ModelUpstream &up, vecmem::copy &copy) {
        Details details(src);
        std::size_t n = details.big() ? src.draw((16u << src.draw(8)) + 1) : src.draw(9);
        int kind = src.draw(7);
        PBT_TRACE(src, "source of kind %d, length %zu", kind, n);
        switch (kind) {
            case 0:
                vec = std::make_unique<vecmem::vector<T>>(n, T(), &up);
                vec->reserve(n + src.draw(4));
                fill(details, *vec, n);
                take(*vec);
                if (n > 0)
                    PBT_CHECK(up.contains(row.ptr, n * sizeof(T)), "elements of a vecmem::vector not from its resource");
                break;
            case 1:
                svec = std::make_unique<std::vector<T>>(n);
                svec->reserve(n + src.draw(4));
                fill(details, *svec, n);
                take(*svec);
                break;
            case 2:
                arr = std::make_unique<vecmem::array<T>>(up, n);
                fill(details, *arr, n);
                take(*arr);
                break;
            case 3:
                arr5 = std::make_unique<vecmem::array<T, 5>>(up);
                fill(details, *arr5, 5);
                take(*arr5);
                break;
            case 4: {
                // buffer
                bool resizable = src.coin();
                buf = std::make_unique<vecmem::data::vector_buffer<T>>(
                    n, up, resizable ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size);
                copy.setup(*buf)->wait();
                view = vecmem::get_data(*buf);
                const auto &cb = *buf;
                cview = vecmem::get_data(cb);
                row.ptr = view.ptr();
                row.size_ptr = view.size_ptr();
                row.capacity = n;
                PBT_CHECK((row.size_ptr != nullptr) == (resizable && n > 0), "size pointer of a buffer");
                std::size_t size = row.resizable() ? src.draw(n + 1) : n;
                for (std::size_t i = 0; i < size; ++i) {
                    uint64_t x = details.draw(1000);
                    new (row.ptr + i) T(Conv<T>::make(x));
                    row.ref.push_back(norm<T>(x));
                }
                if (row.resizable())
                    *row.size_ptr = size;
                break;
            }
            default: {
                // by hand
                raw.resize(n);
                bool resizable = src.coin();
                std::size_t size = resizable ? src.draw(n + 1) : n;
                fill(details, raw, size);
                raw_size = size;
                row.ptr = raw.data();
                row.capacity = n;
                if (resizable) {
                    row.size_ptr = &raw_size;
                    view = vecmem::data::vector_view<T>(n, &raw_size, raw.data());
                    cview = vecmem::data::vector_view<const T>(n, &raw_size, raw.data());
                } else {
                    view = vecmem::data::vector_view<T>(n, raw.data());
                    cview = vecmem::data::vector_view<const T>(n, raw.data());
                }
            }
        }
        check_view(view, row, "view");
        check_view(cview, row, "constant view");
    }
};

template <typename T>
bool same(const Row<T> &a, const Row<T> &b) {
    return a.ptr == b.ptr && a.capacity == b.capacity && a.size_ptr == b.size_ptr;
}

template <typename T>
void one_dim(Src &src) {
    using V = vecmem::data::vector_view<T>;
    using CV = vecmem::data::vector_view<const T>;
    using D = vecmem::device_vector<T>;
    using CD = vecmem::device_vector<const T>;
    ModelUpstream up(&src, 0, ModelUpstream::Place::Separated);
    {
        vecmem::copy copy;
        // the first two sources, and a third one that is close to the first
        std::vector<std::unique_ptr<Source1<T>>> srcs;
        for (int k = 0; k < 2; ++k)
            srcs.push_back(std::make_unique<Source1<T>>(src, up, copy));
        std::vector<Row<T> *> rows;
        std::vector<std::pair<V, int>> vs;
        std::vector<std::pair<CV, int>> cvs;
        std::vector<std::pair<D, int>> ds;
        std::vector<std::pair<CD, int>> cds;
        for (int k = 0; k < 2; ++k) {
            rows.push_back(&srcs[k]->row);
            vs.emplace_back(srcs[k]->view, k);
            cvs.emplace_back(srcs[k]->cview, k);
        }
        vs.reserve(40);
        cvs.reserve(40);
        ds.reserve(40);
        cds.reserve(40);
        int nops = 2 + src.draw(thorough() ? 40 : 16);
        bool wrote = false;
        for (int op = 0; op < nops; ++op) {
            switch (src.draw(11)) {
                case 0: {
                    auto &p = src.pick(vs);
                    PBT_TRACE(src, "copy view of %d", p.second);
                    vs.push_back(p);
                    break;
                }
                case 1: {
                    auto &p = src.pick(vs);
                    PBT_TRACE(src, "constant view of view of %d", p.second);
                    cvs.emplace_back(CV(p.first), p.second);
                    break;
                }
                case 2: {
                    auto &p = src.pick(vs);
                    auto &q = cvs[src.draw(cvs.size())];
                    PBT_TRACE(src, "assign view of %d to constant view of %d", p.second, q.second);
                    PBT_CHECK(&(q.first = p.first) == &q.first, "assignment returns something else");
                    q.second = p.second;
                    break;
                }
                case 3: {
                    auto &p = src.pick(cvs);
                    auto &q = cvs[src.draw(cvs.size())];
                    q = p;
                    break;
                }
                case 4: {
                    auto &p = src.pick(vs);
                    PBT_TRACE(src, "device vector on view of %d", p.second);
                    ds.emplace_back(D(p.first), p.second);
                    break;
                }
                case 5:
                    if (src.coin()) {
                        auto &p = src.pick(vs);
                        cds.emplace_back(CD(p.first), p.second);
                    } else {
                        auto &p = src.pick(cvs);
                        cds.emplace_back(CD(p.first), p.second);
                    }
                    break;
                case 6:
                    if (!ds.empty() && src.coin()) {
                        auto &p = src.pick(ds);
                        auto &q = ds[src.draw(ds.size())];
                        q.first = p.first;
                        q.second = p.second;
                    } else if (!cds.empty()) {
                        auto &p = src.pick(cds);
                        auto &q = cds[src.draw(cds.size())];
                        q.first = p.first;
                        q.second = p.second;
                    }
                    break;
                case 7: {
                    // write through a view or the original
                    auto &p = vs[src.draw(vs.size())];
                    Row<T> &r = *rows[p.second];
                    if (!r.ref.empty()) {
                        std::size_t i = src.draw(r.ref.size());
                        uint64_t x = src.draw(30000);
                        p.first.ptr()[i] = Conv<T>::make(x);
                        r.ref[i] = norm<T>(x);
                        wrote = true;
                    }
                    break;
                }
                default:
                    if (!ds.empty()) {
                        auto &p = ds[src.draw(ds.size())];
                        PBT_TRACE(src, "modify %d through a device vector", p.second);
                        wrote |= modify(src, p.first, *rows[p.second]);
                    }
            }
            // everyone must agree
            for (auto &p : vs) {
                check_view(p.first, *rows[p.second], "view");
                const auto &c = p.first;
                check_view(c, *rows[p.second], "view");
            }
            for (auto &p : cvs)
                check_view(p.first, *rows[p.second], "constant view");
            for (auto &p : ds)
                check_device(src, p.first, *rows[p.second], "device vector");
            for (auto &p : cds)
                check_device(src, p.first, *rows[p.second], "constant device vector");
            auto &a = src.pick(vs);
            auto &b = src.pick(vs);
            auto &ca = src.pick(cvs);
            auto &cb = src.pick(cvs);
            bool ab = same(*rows[a.second], *rows[b.second]);
            bool aca = same(*rows[a.second], *rows[ca.second]);
            bool cacb = same(*rows[ca.second], *rows[cb.second]);
            PBT_CHECK((a.first == b.first) == ab && (a.first != b.first) == !ab, "comparison of views");
            PBT_CHECK((a.first == ca.first) == aca && (a.first != ca.first) == !aca, "comparison of views");
            PBT_CHECK((ca.first == a.first) == aca && (ca.first != a.first) == !aca, "comparison of views");
            PBT_CHECK((ca.first == cb.first) == cacb && (ca.first != cb.first) == !cacb, "comparison of views");
            // slightly different ones
            Row<T> &r = *rows[a.second];
            SZ other_size = 0;
            T other;
            const V &av = a.first;
            V d1 = r.size_ptr ? V(r.capacity + 1, r.size_ptr, r.ptr) : V(r.capacity + 1, r.ptr);
            V d2 = r.size_ptr ? V(r.capacity, r.ptr) : V(r.capacity, &other_size, r.ptr);
            V d3 = r.size_ptr ? V(r.capacity, r.size_ptr, &other) : V(r.capacity, &other);
            PBT_CHECK(d1 != a.first && !(a.first == d1) && d2 != a.first && !(a.first == d2) && d3 != a.first &&
                          !(a.first == d3) && CV(d1) != a.first && CV(d2) != a.first && CV(d3) != a.first,
                      "different views compare equal");
            PBT_CHECK(a.first.size() == r.ref.size(), "size");
        }
        if (vs.size() + cvs.size() + ds.size() + cds.size() >= 3 && wrote)
            src.nontrivial();
    }
    up.expect_balanced("at the end");
}

/// Something that owns jagged data
template <typename T>
struct SourceJ {
    using JV = vecmem::data::jagged_vector_view<T>;
    using JCV = vecmem::data::jagged_vector_view<const T>;
    std::unique_ptr<vecmem::jagged_vector<T>> vec;
    std::unique_ptr<std::vector<std::vector<T>>> svec;
    std::unique_ptr<vecmem::data::jagged_vector_data<T>> data;
    std::unique_ptr<vecmem::data::jagged_vector_data<const T>> cdata;
    std::unique_ptr<vecmem::data::jagged_vector_buffer<T>> buf;
    std::vector<vecmem::data::vector_view<T>> raw_views, raw_host_views;
    std::vector<std::vector<T>> raw;
    std::vector<SZ> raw_sizes;

    std::vector<Row<T>> rows;
    const void *ptr = nullptr, *host_ptr = nullptr, *c_ptr = nullptr;
    JV view{0, nullptr};
    JCV cview{0, nullptr};

    template <typename J>
    void take(Src &src, Details &details, J &j, std::size_t n, ModelUpstream &own, ModelUpstream &other, bool may_default) {
        const J &c = j;
        vecmem::memory_resource *res = may_default && src.coin() ? nullptr : (src.coin() ? &own : &other);
        data = std::make_unique<vecmem::data::jagged_vector_data<T>>(vecmem::get_data(j, res));
        cdata = std::make_unique<vecmem::data::jagged_vector_data<const T>>(vecmem::get_data(c, res));
        ModelUpstream &from = res == &other ? other : own;
        if (n > 0)
            PBT_CHECK(from.contains(data->ptr(), n * sizeof(*data->ptr())) &&
                          from.contains(cdata->ptr(), n * sizeof(*cdata->ptr())),
                      "the description of a jagged vector is not in memory of the resource asked for");
        const auto &cd = *data;
        view = src.coin() ? vecmem::get_data(*data) : JV(vecmem::get_data(cd));
        cview = vecmem::get_data(*cdata);
        ptr = host_ptr = data->ptr();
        c_ptr = cdata->ptr();
        rows.resize(n);
        for (std::size_t i = 0; i < n; ++i) {
            rows[i].ptr = j[i].data();
            rows[i].capacity = j[i].size();
            for (auto &e : j[i]) {
                uint64_t x = details.draw(1000);
                e = Conv<T>::make(x);
                rows[i].ref.push_back(norm<T>(x));
            }
        }
        PBT_CHECK(data->host_ptr() == data->ptr(), "host pointer of host data");
    }
    SourceJ(Src &src, ModelUpstream &up, ModelUpstream &up2, vecmem::copy &copy) {
        Details details(src);
        std::size_t n = src.draw(7), most = 6;
        if (details.big()) {
            if (src.coin())
                n = src.draw((16u << src.draw(6)) + 1);
            else
                most = 16u << src.draw(8);
        }
        std::vector<std::size_t> lens;
        for (std::size_t i = 0; i < n; ++i)
            lens.push_back(details.coin() ? details.draw(most) : 0);
        int kind = src.draw(5);
        if (src.tracing()) {
            std::string l;
            for (auto x : lens)
                l += " " + std::to_string(x);
            PBT_TRACE(src, "jagged source of kind %d, %zu rows:%s", kind, n, l.c_str());
        }
        switch (kind) {
            case 0: {
                vec = std::make_unique<vecmem::jagged_vector<T>>(&up);
                for (auto l : lens) {
                    vec->emplace_back(l);
                    // (with room for more)
                    vec->back().reserve(l + details.draw(4));
                }
                take(src, details, *vec, n, up, up2, true);
                for (auto &r : rows)
                    if (!r.ref.empty())
                        PBT_CHECK(up.contains(r.ptr, r.ref.size() * sizeof(T)),
                                  "a row of a jagged vector is not from the resource of the outer vector");
                break;
            }
            case 1: {
                svec = std::make_unique<std::vector<std::vector<T>>>();
                for (auto l : lens) {
                    svec->emplace_back(l);
                    svec->back().reserve(l + details.draw(4));
                }
                take(src, details, *svec, n, up, up2, false);
                break;
            }
            case 2: {
                bool resizable = src.coin(), two = src.coin();
                auto type = resizable ? vecmem::data::buffer_type::resizable : vecmem::data::buffer_type::fixed_size;
                PBT_TRACE(src, "  %s buffer, %d resources", resizable ? "resizable" : "fixed", two + 1);
                buf = std::make_unique<vecmem::data::jagged_vector_buffer<T>>(lens, up, two ? &up2 : nullptr, type);
                copy.setup(*buf)->wait();
                const auto &cb = *buf;
                view = src.coin() ? vecmem::get_data(*buf) : JV(vecmem::get_data(cb));
                cview = JCV(vecmem::get_data(cb));
                ptr = buf->ptr();
                host_ptr = buf->host_ptr();
                c_ptr = ptr;
                PBT_CHECK(n == 0 || (ptr != host_ptr) == two, "host and device descriptions");
                rows.resize(n);
                for (std::size_t i = 0; i < n; ++i) {
                    auto &v = buf->host_ptr()[i];
                    rows[i].ptr = v.ptr();
                    rows[i].capacity = lens[i];
                    rows[i].size_ptr = v.size_ptr();
                    PBT_CHECK((v.size_ptr() != nullptr) == resizable, "row of a buffer is resizable or not");
                    std::size_t size = resizable ? details.draw(lens[i] + 1) : lens[i];
                    for (std::size_t k = 0; k < size; ++k) {
                        uint64_t x = details.draw(1000);
                        new (v.ptr() + k) T(Conv<T>::make(x));
                        rows[i].ref.push_back(norm<T>(x));
                    }
                    if (resizable)
                        *v.size_ptr() = size;
                }
                break;
            }
            default: {
                // by hand; rows may have any mix of kinds
                raw.resize(n);
                raw_sizes.resize(n);
                rows.resize(n);
                for (std::size_t i = 0; i < n; ++i) {
                    raw[i].resize(lens[i]);
                    bool resizable = details.coin();
                    std::size_t size = resizable ? details.draw(lens[i] + 1) : lens[i];
                    raw_sizes[i] = size;
                    rows[i].ptr = raw[i].data();
                    rows[i].capacity = lens[i];
                    if (resizable) {
                        rows[i].size_ptr = &raw_sizes[i];
                        raw_views.emplace_back(SZ(lens[i]), &raw_sizes[i], raw[i].data());
                    } else
                        raw_views.emplace_back(SZ(lens[i]), raw[i].data());
                    for (std::size_t k = 0; k < size; ++k) {
                        uint64_t x = details.draw(1000);
                        raw[i][k] = Conv<T>::make(x);
                        rows[i].ref.push_back(norm<T>(x));
                    }
                }
                raw_host_views = raw_views;
                if (src.coin()) {
                    view = JV(n, raw_views.data(), raw_host_views.data());
                    host_ptr = raw_host_views.data();
                } else {
                    view = JV(n, raw_views.data());
                    host_ptr = raw_views.data();
                }
                cview = view;
                ptr = c_ptr = raw_views.data();
            }
        }
    }
};

template <typename T, typename V>
void check_jview(const V &cv, V &v, SourceJ<T> &s, const char *what) {
    std::size_t n = s.rows.size();
    PBT_CHECK(v.size() == n && v.capacity() == n, "%s has %zu rows instead of %zu", what, (std::size_t)v.size(), n);
    for (std::size_t i = 0; i < n; ++i) {
        check_view(v.ptr()[i], s.rows[i], what);
        check_view(cv.ptr()[i], s.rows[i], what);
        check_view(v.host_ptr()[i], s.rows[i], what);
        check_view(cv.host_ptr()[i], s.rows[i], what);
    }
}

template <typename T, typename DV>
bool is_row(const DV &d, const Row<T> &r) {
    return d.data() == r.ptr && d.size() == r.ref.size() && d.capacity() == r.capacity;
}
template <typename T, typename It>
void walk_rows(Src &src, It b, It e, std::vector<Row<T>> &rows, bool rev, const char *what) {
    auto ok = [&](const auto &d, std::size_t i) { return is_row(d, rows[i]); };
    auto arrow = [&](const It &it, std::size_t i) {
        return it->size() == rows[i].ref.size() && it->data() == rows[i].ptr;
    };
    walk_by(src, b, e, rows.size(), rev, ok, arrow, what);
}

template <typename T, typename J>
void check_jdevice(Src &src, J &j, SourceJ<T> &s, const char *what) {
    const J &c = j;
    auto &rows = s.rows;
    std::size_t n = rows.size();
    PBT_CHECK(j.size() == n && j.max_size() == n && j.capacity() == n && j.empty() == (n == 0),
              "%s has %zu rows instead of %zu", what, (std::size_t)j.size(), n);
    for (std::size_t i = 0; i < n; ++i) {
        auto a = j[i];
        auto b = c[i];
        auto aa = j.at(i);
        auto bb = c.at(i);
        PBT_CHECK(is_row(a, rows[i]) && is_row(b, rows[i]) && is_row(aa, rows[i]) && is_row(bb, rows[i]),
                  "%s: row %zu is not the original one", what, i);
        if (src.coin())
            check_device(src, a, rows[i], what);
        else
            check_device(src, b, rows[i], what);
    }
    if (n > 0)
        PBT_CHECK(is_row(j.front(), rows[0]) && is_row(c.front(), rows[0]) && is_row(j.back(), rows[n - 1]) &&
                      is_row(c.back(), rows[n - 1]),
                  "%s: front or back", what);
    using CI = typename J::const_iterator;
    using CRI = typename J::const_reverse_iterator;
    switch (src.draw(9)) {
        case 0:
            return walk_rows(src, j.begin(), j.end(), rows, false, what);
        case 1:
            return walk_rows(src, c.begin(), c.end(), rows, false, what);
        case 2:
            return walk_rows(src, j.cbegin(), j.cend(), rows, false, what);
        case 3:
            return walk_rows(src, j.rbegin(), j.rend(), rows, true, what);
        case 4:
            return walk_rows(src, c.rbegin(), c.rend(), rows, true, what);
        case 5:
            return walk_rows(src, j.crbegin(), j.crend(), rows, true, what);
        case 6:
            return walk_rows(src, CI(j.begin()), CI(j.end()), rows, false, what);
        case 7:
            return walk_rows(src, CRI(j.rbegin()), CRI(j.rend()), rows, true, what);
        default: {
            CI x = c.begin(), y = j.begin();
            PBT_CHECK(x == y && !(x != y), "%s: constant and non-constant iterators to the same row", what);
            CI z;
            z = j.end();
            PBT_CHECK(z == c.end() && (z == x) == (n == 0), "%s: constant and non-constant iterators", what);
        }
    }
}

template <typename T>
void jagged(Src &src) {
    using JV = vecmem::data::jagged_vector_view<T>;
    using JCV = vecmem::data::jagged_vector_view<const T>;
    using J = vecmem::jagged_device_vector<T>;
    using CJ = vecmem::jagged_device_vector<const T>;
    ModelUpstream up(&src, 0, ModelUpstream::Place::Separated);
    ModelUpstream up2(&src, 1, ModelUpstream::Place::Separated);
    {
        vecmem::copy copy;
        std::vector<std::unique_ptr<SourceJ<T>>> srcs;
        struct Tag {
            int k;
            const void *ptr, *host;
        };
        std::vector<std::pair<JV, Tag>> vs;
        std::vector<std::pair<JCV, Tag>> cvs;
        std::vector<std::pair<J, int>> ds;
        std::vector<std::pair<CJ, int>> cds;
        for (int k = 0; k < 2; ++k) {
            srcs.push_back(std::make_unique<SourceJ<T>>(src, up, up2, copy));
            auto &s = *srcs[k];
            vs.push_back({s.view, Tag{k, s.ptr, s.host_ptr}});
            cvs.push_back({s.cview, Tag{k, s.c_ptr, s.c_ptr == s.ptr ? s.host_ptr : s.c_ptr}});
        }
        vs.reserve(40);
        cvs.reserve(40);
        ds.reserve(40);
        cds.reserve(40);
        bool wrote = false;
        int nops = 2 + src.draw(thorough() ? 30 : 12);
        for (int op = 0; op < nops; ++op) {
            switch (src.draw(11)) {
                case 0: {
                    auto &p = src.pick(vs);
                    vs.push_back(p);
                    break;
                }
                case 1: {
                    auto &p = src.pick(vs);
                    PBT_TRACE(src, "constant view of view of %d", p.second.k);
                    cvs.push_back({JCV(p.first), p.second});
                    break;
                }
                case 2: {
                    auto &p = src.pick(vs);
                    auto &q = cvs[src.draw(cvs.size())];
                    PBT_TRACE(src, "assign view of %d to constant view of %d", p.second.k, q.second.k);
                    PBT_CHECK(&(q.first = p.first) == &q.first, "assignment returns something else");
                    q.second = p.second;
                    break;
                }
                case 3: {
                    auto &p = src.pick(vs);
                    auto &q = vs[src.draw(vs.size())];
                    q = p;
                    break;
                }
                case 4: {
                    auto &p = src.pick(vs);
                    ds.push_back({J(p.first), p.second.k});
                    break;
                }
                case 5:
                    if (src.coin()) {
                        auto &p = src.pick(vs);
                        cds.push_back({CJ(p.first), p.second.k});
                    } else {
                        auto &p = src.pick(cvs);
                        cds.push_back({CJ(p.first), p.second.k});
                    }
                    break;
                case 6:
                    if (!ds.empty()) {
                        auto &p = src.pick(ds);
                        auto &q = ds[src.draw(ds.size())];
                        PBT_CHECK(&(q.first = p.first) == &q.first, "assignment returns something else");
                        q.second = p.second;
                    }
                    break;
                default:
                    if (!ds.empty()) {
                        auto &p = ds[src.draw(ds.size())];
                        auto &s = *srcs[p.second];
                        if (s.rows.empty())
                            break;
                        std::size_t n = s.rows.size(), i = src.draw(n);
                        J &j = p.first;
                        PBT_TRACE(src, "modify row %zu of %d", i, p.second);
                        switch (src.draw(7)) {
                            case 0: {
                                auto r = j[i];
                                wrote |= modify(src, r, s.rows[i]);
                                break;
                            }
                            case 1: {
                                auto r = j.at(i);
                                wrote |= modify(src, r, s.rows[i]);
                                break;
                            }
                            case 2: {
                                auto r = *(j.begin() + i);
                                wrote |= modify(src, r, s.rows[i]);
                                break;
                            }
                            case 3: {
                                auto r = *(j.rbegin() + (n - 1 - i));
                                wrote |= modify(src, r, s.rows[i]);
                                break;
                            }
                            case 4: {
                                auto r = j.end()[(std::ptrdiff_t)i - (std::ptrdiff_t)n];
                                wrote |= modify(src, r, s.rows[i]);
                                break;
                            }
                            case 5: {
                                auto r = j.front();
                                wrote |= modify(src, r, s.rows[0]);
                                break;
                            }
                            default: {
                                auto r = j.back();
                                wrote |= modify(src, r, s.rows[n - 1]);
                            }
                        }
                    }
            }
            for (auto &p : vs) {
                check_jview(p.first, p.first, *srcs[p.second.k], "jagged view");
                PBT_CHECK(p.first.ptr() == p.second.ptr && p.first.host_ptr() == p.second.host,
                          "jagged view describes its rows elsewhere");
            }
            for (auto &p : cvs) {
                check_jview(p.first, p.first, *srcs[p.second.k], "constant jagged view");
                PBT_CHECK((const void *)p.first.ptr() == p.second.ptr && (const void *)p.first.host_ptr() == p.second.host,
                          "constant jagged view describes its rows elsewhere");
            }
            for (auto &p : ds)
                check_jdevice(src, p.first, *srcs[p.second], "jagged device vector");
            for (auto &p : cds)
                check_jdevice(src, p.first, *srcs[p.second], "constant jagged device vector");
            auto same = [](const auto &a, const auto &b) {
                return a.first.size() == b.first.size() && a.second.ptr == b.second.ptr && a.second.host == b.second.host;
            };
            auto &a = src.pick(vs);
            auto &b = src.pick(vs);
            auto &ca = src.pick(cvs);
            auto &cb = src.pick(cvs);
            PBT_CHECK((a.first == b.first) == same(a, b) && (a.first != b.first) == !same(a, b), "comparison of jagged views");
            PBT_CHECK((a.first == ca.first) == same(a, ca) && (a.first != ca.first) == !same(a, ca),
                      "comparison of jagged views");
            PBT_CHECK((ca.first == a.first) == same(a, ca) && (ca.first != a.first) == !same(a, ca),
                      "comparison of jagged views");
            PBT_CHECK((ca.first == cb.first) == same(ca, cb) && (ca.first != cb.first) == !same(ca, cb),
                      "comparison of jagged views");
            typename JV::value_type other;
            JV av = a.first;
            JV d1(av.size() + 1, av.ptr(), av.host_ptr());
            JV d2(av.size(), &other, av.host_ptr());
            JV d3(av.size(), av.ptr(), &other);
            PBT_CHECK(d1 != a.first && !(a.first == d1) && d3 != a.first && !(a.first == d3) && JCV(d1) != a.first &&
                          JCV(d3) != a.first && !(JCV(d3) == a.first),
                      "different jagged views compare equal");
            if (a.first.host_ptr() != nullptr)
                PBT_CHECK(d2 != a.first && !(a.first == d2) && JCV(d2) != a.first, "different jagged views compare equal");
        }
        bool varied = false;
        for (auto &s : srcs)
            for (auto &r : s->rows)
                varied |= r.capacity != s->rows[0].capacity;
        if (vs.size() + cvs.size() + ds.size() + cds.size() >= 3 && wrote && varied)
            src.nontrivial();
    }
    up.expect_balanced("at the end");
    up2.expect_balanced("at the end");
}

template <typename T>
void with_type(Src &src) {
    if (src.coin())
        jagged<T>(src);
    else
        one_dim<T>(src);
}
}  // namespace

void run(Src &src) {
    if (src.draw(24) == 1)
        return hc::any_jagged_view(src);
    switch (src.draw(4)) {
        case 0:
            return with_type<int>(src);
        case 1:
            return with_type<char>(src);
        case 2:
            return with_type<Pod<7, 1>>(src);
        default:
            return with_type<double>(src);
    }
}
}  // namespace harness
