// Generated schedules of threads that append to one device vector, SoA container or to rows of a jagged vector, with
// yield points at every shared access.
// check: lib=memory,utils mode=sched
// assume: sequentially consistent interleavings of at most 4 threads; data races are found by happens-before clocks
#include <vecmem/containers/data/jagged_vector_buffer.hpp>
#include <vecmem/containers/data/vector_buffer.hpp>
#include <vecmem/containers/device_vector.hpp>
#include <vecmem/containers/jagged_device_vector.hpp>
#include <vecmem/edm/container.hpp>
#include <vecmem/utils/copy.hpp>

#include "sched.hpp"
#include "types.hpp"
#include "upstream.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P07";
const char *const rule =
    "2..4 threads with 1..4 appends each (push_back, emplace_back, the bulk ones, push_back_default) to one resizable "
    "container with elements in it, from the same or from their own device objects; non-trivial: the threads were "
    "interleaved (a thread was resumed after another one had run)";
const uint64_t quick_cases = 4000000;
const uint64_t thorough_cases = 48000000;

using SZ = unsigned int;

/// One appending operation of one thread
struct Append {
    int kind = 0;
    SZ n = 1;
    uint64_t v = 0;
    // what it returned
    SZ at = 0;
    bool done = false;
};
struct Plan {
    std::vector<std::vector<Append>> ops;
    SZ total = 0;
    Plan(Src &src, int kinds, bool bulk) {
        int n = 2 + static_cast<int>(src.draw(3));
        ops.resize(n);
        for (auto &o : ops) {
            o.resize(1 + src.draw(4));
            for (auto &a : o) {
                a.kind = static_cast<int>(src.draw(kinds));
                a.n = bulk && a.kind >= 2 ? static_cast<SZ>(sized(src, 4, 300)) : 1;
                a.v = 1 + src.draw(20000);
                total += a.n;
            }
        }
    }
    /// Positions are disjoint and together exactly [before, after)
    void judge(SZ before, SZ after, const char *what) {
        std::vector<int> taken(total, -1);
        int t = 0;
        for (auto &o : ops) {
            SZ last = 0;
            for (auto &a : o) {
                for (SZ i = 0; i < a.n; ++i) {
                    SZ p = a.at + i;
                    PBT_CHECK(p >= before && p < before + total,
                              "an append of thread %d to a %s of %u elements got position %u, with %u appended altogether", t,
                              what, before, p, total);
                    PBT_CHECK(taken[p - before] < 0, "position %u of a %s was given to thread %d and to thread %d", p, what,
                              taken[p - before], t);
                    taken[p - before] = t;
                }
                // (later appends of the same thread come later)
                if (a.n > 0) {
                    PBT_CHECK(a.at >= last, "thread %d got position %u after it had got %u", t, a.at, last);
                    last = a.at + a.n;
                }
            }
            ++t;
        }
        PBT_CHECK(after == before + total, "a %s of %u elements has %u after %u more were appended", what, before, after, total);
    }
};

template <typename T>
void one_vector(Src &src) {
    ModelUpstream up(&src, 0);
    {
        Plan plan(src, 5, true);
        SZ before = static_cast<SZ>(sized(src, 3, 300));
        // (a buffer without any capacity is not resizable)
        SZ cap = std::max<SZ>(1, before + plan.total + static_cast<SZ>(sized(src, 3, 300)));
        vecmem::data::vector_buffer<T> buf(cap, up, vecmem::data::buffer_type::resizable);
        vecmem::copy copy;
        copy.setup(buf)->wait();
        vecmem::device_vector<T> dev(buf);
        for (SZ i = 0; i < before; ++i)
            dev.push_back(Conv<T>::make(50 + i));
        auto view = vecmem::get_data(buf);
        sched::unwatch_all();
        sched::watch(view.ptr(), cap * sizeof(T), "the elements");
        sched::watch(view.size_ptr(), sizeof(SZ), "the size");
        bool same = src.coin();
        bool hold = src.coin();
        PBT_TRACE(src, "vector of %u elements, %s device vector", before, same ? "one" : "each thread has its own");
        std::vector<std::function<void()>> threads;
        for (std::size_t t = 0; t < plan.ops.size(); ++t)
            threads.push_back([&, t] {
                vecmem::device_vector<T> own(view);
                vecmem::device_vector<T> &d = same ? dev : own;
                for (auto &a : plan.ops[t]) {
                    const T value = sched::quiet([&] { return Conv<T>::make(a.v); });
                    SZ at = 0;
                    switch (a.kind) {
                        case 0:
                            at = d.push_back(value);
                            break;
                        case 1: {
                            T &r = d.emplace_back(value);
                            std::ptrdiff_t k = &r - view.ptr();
                            sched::Quiet q;
                            PBT_CHECK(k >= 0 && static_cast<std::size_t>(k) < cap, "emplace_back returned something outside of the vector");
                            at = static_cast<SZ>(k);
                            break;
                        }
                        case 2:
                            at = d.bulk_append(a.n);
                            for (SZ i = 0; i < a.n; ++i) {
                                const T x = d[at + i];
                                sched::Quiet q;
                                PBT_CHECK(Conv<T>::get(x) == Conv<T>::get(T()), "bulk_append made an element that is not the default one");
                            }
                            for (SZ i = 0; i < a.n; ++i)
                                d[at + i] = value;
                            break;
                        case 3:
                            at = d.bulk_append(a.n, value);
                            break;
                        default:
                            at = d.bulk_append_implicit(a.n);
                            for (SZ i = 0; i < a.n; ++i)
                                d[at + i] = value;
                    }
                    {
                        sched::Quiet q;
                        a.at = at;
                        a.done = true;
                        PBT_TRACE(src, "thread %d: append(%d) of %u at %u", (int)t, a.kind, a.n, at);
                    }
                    if (hold)
                        for (SZ i = 0; i < a.n; ++i) {
                            const T x = d[at + i];
                            sched::Quiet q;
                            PBT_CHECK(Conv<T>::get(x) == Conv<T>::get(value), "the element appended at %u by thread %d is not there", at + i, (int)t);
                        }
                }
            });
        sched::run(src, threads);
        sched::unwatch_all();
        plan.judge(before, dev.size(), "vector");
        for (SZ i = 0; i < before; ++i)
            PBT_CHECK(Conv<T>::get(dev[i]) == Conv<T>::get(Conv<T>::make(50 + i)), "element %u, there before, was changed", i);
        for (auto &o : plan.ops)
            for (auto &a : o)
                for (SZ i = 0; i < a.n; ++i)
                    PBT_CHECK(Conv<T>::get(dev[a.at + i]) == Conv<T>::get(Conv<T>::make(a.v)),
                              "position %u does not hold the value appended there", a.at + i);
    }
    check_sticky();
}

template <typename T>
void rows(Src &src) {
    ModelUpstream up(&src, 0), host(&src, 1);
    {
        Plan plan(src, 5, true);
        std::size_t nrows = 1 + sized(src, 3, 300);
        // v of an operation also says which row
        std::vector<std::size_t> caps(nrows, std::max<SZ>(1, plan.total));
        bool split = src.coin();
        vecmem::data::jagged_vector_buffer<T> buf(caps, up, split ? &host : nullptr, vecmem::data::buffer_type::resizable);
        vecmem::copy copy;
        copy.setup(buf)->wait();
        vecmem::jagged_device_vector<T> dev(buf);
        auto view = vecmem::get_data(buf);
        sched::unwatch_all();
        for (std::size_t i = 0; i < nrows; ++i) {
            sched::watch(view.host_ptr()[i].ptr(), caps[i] * sizeof(T), "the elements of a row");
            sched::watch(view.host_ptr()[i].size_ptr(), sizeof(SZ), "the size of a row");
        }
        PBT_TRACE(src, "%zu rows", nrows);
        std::vector<std::function<void()>> threads;
        for (std::size_t t = 0; t < plan.ops.size(); ++t)
            threads.push_back([&, t] {
                vecmem::jagged_device_vector<T> d(view);
                for (auto &a : plan.ops[t]) {
                    const T value = sched::quiet([&] { return Conv<T>::make(a.v); });
                    auto row = d[a.v % nrows];
                    SZ at = 0;
                    switch (a.kind) {
                        case 0:
                            at = row.push_back(value);
                            break;
                        case 1:
                            at = static_cast<SZ>(&row.emplace_back(value) - row.data());
                            break;
                        case 2:
                            at = row.bulk_append(a.n);
                            for (SZ i = 0; i < a.n; ++i)
                                row[at + i] = value;
                            break;
                        case 3:
                            at = row.bulk_append(a.n, value);
                            break;
                        default:
                            at = row.bulk_append_implicit(a.n);
                            for (SZ i = 0; i < a.n; ++i)
                                row.at(at + i) = value;
                    }
                    sched::Quiet q;
                    a.at = at;
                    a.done = true;
                    PBT_TRACE(src, "thread %d: append(%d) of %u at %u of row %d", (int)t, a.kind, a.n, at, (int)(a.v % nrows));
                }
            });
        sched::run(src, threads);
        sched::unwatch_all();
        for (std::size_t r = 0; r < nrows; ++r) {
            Plan p = plan;
            p.total = 0;
            for (auto &o : p.ops) {
                std::vector<Append> k;
                for (auto &a : o)
                    if (a.v % nrows == r) {
                        k.push_back(a);
                        p.total += a.n;
                    }
                o = k;
            }
            p.judge(0, dev[r].size(), "row");
            for (auto &o : p.ops)
                for (auto &a : o)
                    for (SZ i = 0; i < a.n; ++i)
                        PBT_CHECK(Conv<T>::get(dev[r][a.at + i]) == Conv<T>::get(Conv<T>::make(a.v)),
                                  "position %u of a row does not hold the value appended there", a.at + i);
        }
    }
    check_sticky();
}

template <typename BASE>
struct Face : public BASE {
    using BASE::BASE;
};
namespace vt = vecmem::edm::type;
template <typename A, typename B>
void soa(Src &src) {
    using C = vecmem::edm::container<Face, vt::vector<A>, vt::scalar<int>, vt::vector<B>>;
    ModelUpstream up(&src, 0);
    {
        Plan plan(src, 2, false);
        SZ before = static_cast<SZ>(sized(src, 3, 300));
        // (a buffer without any capacity is not resizable)
        SZ cap = std::max<SZ>(1, before + plan.total + static_cast<SZ>(sized(src, 3, 300)));
        typename C::buffer buf(cap, up, vecmem::data::buffer_type::resizable);
        vecmem::copy copy;
        copy.setup(buf)->wait();
        typename C::view view = vecmem::get_data(buf);
        typename C::device dev(view);
        for (SZ i = 0; i < before; ++i) {
            SZ k = dev.push_back_default();
            dev.template get<0>()[k] = Conv<A>::make(50 + i);
            dev.template get<2>()[k] = Conv<B>::make(70 + i);
        }
        dev.template get<1>() = 77;
        sched::unwatch_all();
        sched::watch(view.size().ptr(), sizeof(SZ), "the size");
        sched::watch(view.template get<0>().ptr(), cap * sizeof(A), "the first variable");
        sched::watch(view.template get<2>().ptr(), cap * sizeof(B), "the last variable");
        bool same = src.coin();
        PBT_TRACE(src, "SoA container of %u elements, %s device object", before, same ? "one" : "each thread has its own");
        std::vector<std::function<void()>> threads;
        for (std::size_t t = 0; t < plan.ops.size(); ++t)
            threads.push_back([&, t] {
                typename C::device own(view);
                typename C::device &d = same ? dev : own;
                for (auto &a : plan.ops[t]) {
                    const A x = sched::quiet([&] { return Conv<A>::make(a.v); });
                    const B y = sched::quiet([&] { return Conv<B>::make(a.v + 1); });
                    const SZ at = d.push_back_default();
                    sched::quiet([&] {
                        a.at = at;
                        a.done = true;
                        PBT_TRACE(src, "thread %d: push_back_default at %u", (int)t, at);
                        PBT_CHECK(at < cap, "push_back_default returned %u, with a capacity of %u", at, cap);
                    });
                    const A x0 = d.template get<0>()[at];
                    const B y0 = d.template get<2>()[at];
                    sched::quiet([&] {
                        PBT_CHECK(Conv<A>::get(x0) == Conv<A>::get(A()) && Conv<B>::get(y0) == Conv<B>::get(B()),
                                  "the element that push_back_default made at %u is not the default one", at);
                    });
                    if (a.kind == 0) {
                        d.template get<0>()[at] = x;
                        d.template get<2>()[at] = y;
                    } else {
                        auto p = d[at];
                        p.template get<2>() = y;
                        p.template get<0>() = x;
                    }
                }
            });
        sched::run(src, threads);
        sched::unwatch_all();
        plan.judge(before, dev.size(), "SoA container");
        PBT_CHECK(dev.template get<1>() == 77, "a scalar was changed");
        for (SZ i = 0; i < before; ++i)
            PBT_CHECK(Conv<A>::get(dev.template get<0>()[i]) == Conv<A>::get(Conv<A>::make(50 + i)) &&
                          Conv<B>::get(dev.template get<2>()[i]) == Conv<B>::get(Conv<B>::make(70 + i)),
                      "element %u, there before, was changed", i);
        for (auto &o : plan.ops)
            for (auto &a : o)
                PBT_CHECK(Conv<A>::get(dev.template get<0>()[a.at]) == Conv<A>::get(Conv<A>::make(a.v)) &&
                              Conv<B>::get(dev.template get<2>()[a.at]) == Conv<B>::get(Conv<B>::make(a.v + 1)),
                          "position %u does not hold the values written there", a.at);
    }
    check_sticky();
}

void run(Src &src) {
    switch (src.draw(9)) {
        case 0:
            one_vector<int>(src);
            break;
        case 1:
            one_vector<uint64_t>(src);
            break;
        case 2:
            one_vector<char>(src);
            break;
        case 3:
            one_vector<Pair>(src);
            break;
        case 4:
            rows<int>(src);
            break;
        case 5:
            rows<Pair>(src);
            break;
        case 6:
            soa<int, double>(src);
            break;
        case 7:
            soa<char, uint64_t>(src);
            break;
        default:
            soa<float, short>(src);
    }
    if (sched::interleaved())
        src.nontrivial();
}
}  // namespace harness
