// Histories of creating, copying, moving, assigning, using and destroying stream and queue wrappers and the objects made
// from them, against a model of who owns which stream.
// check: lib=memory,utils,cuda,hip,sycl
// assume: the runtimes behave as the model in fake/ does; streams that are only wrapped outlive their wrappers; objects that were moved from are only assigned to or destroyed
#include <cuda_runtime_api.h>

#include <gpu.hpp>
#include <sycl/sycl.hpp>

#include <vecmem/memory/sycl/device_memory_resource.hpp>
#include <vecmem/memory/sycl/host_memory_resource.hpp>
#include <vecmem/memory/sycl/shared_memory_resource.hpp>
#include <vecmem/utils/cuda/async_copy.hpp>
#include <vecmem/utils/cuda/stream_wrapper.hpp>
#include <vecmem/utils/sycl/async_copy.hpp>
#include <vecmem/utils/sycl/copy.hpp>
#include <vecmem/utils/sycl/queue_wrapper.hpp>

using namespace pbt;

namespace harness {
const char *const id = "P31";
const char *const rule =
    "histories of 3..40 constructions (default, for a device, around an existing stream), copies, moves, assignments "
    "(also to itself), uses, synchronizations and destructions of up to 8 wrappers, copy objects and memory resources, "
    "with up to one failing call; non-trivial: an owned stream was shared by two objects, and one of them was destroyed or "
    "assigned to";
const uint64_t quick_cases = 500000;
const uint64_t thorough_cases = 6000000;

namespace {
struct Cuda {
    static constexpr gpu::Api api = gpu::CUDA;
    using Wrapper = vecmem::cuda::stream_wrapper;
    using Raw = cudaStream_t;
    static gpu::Stream *get(const Wrapper &w, bool) { return static_cast<gpu::Stream *>(w.stream()); }
    static gpu::Stream *get(Raw *r) { return *r; }
    static std::unique_ptr<Wrapper> wrap(Raw *r) { return std::make_unique<Wrapper>(static_cast<void *>(*r)); }
    static std::unique_ptr<Raw> raw() {
        auto r = std::make_unique<Raw>();
        cudaStreamCreate(r.get());
        return r;
    }
    static void unraw(Raw *r) { cudaStreamDestroy(*r); }
};
struct Sycl {
    static constexpr gpu::Api api = gpu::SYCL;
    using Wrapper = vecmem::sycl::queue_wrapper;
    using Raw = sycl::queue;
    static gpu::Stream *get(Wrapper &w, bool c) {
        const Wrapper &cw = w;
        return c ? static_cast<const sycl::queue *>(cw.queue())->fake_stream()
                 : static_cast<sycl::queue *>(w.queue())->fake_stream();
    }
    static gpu::Stream *get(Raw *r) { return r->fake_stream(); }
    static std::unique_ptr<Wrapper> wrap(Raw *r) { return std::make_unique<Wrapper>(static_cast<void *>(r)); }
    static std::unique_ptr<Raw> raw() { return std::make_unique<Raw>(sycl::property::queue::in_order()); }
    static void unraw(Raw *) {}
};

template <typename A>
struct Test {
    using Wrapper = typename A::Wrapper;
    struct Obj {
        std::unique_ptr<Wrapper> w;
        std::unique_ptr<vecmem::copy> c;
        std::unique_ptr<vecmem::memory_resource> m;
        gpu::Stream *s = nullptr;
        bool owns = false;
        bool valid() const { return s != nullptr; }
    };
    Src &src;
    ModelUpstream host;
    cw::DeviceUpstream dev;
    gpu::Runtime rt;
    std::vector<Obj> objs;
    std::vector<std::unique_ptr<typename A::Raw>> raws;
    std::map<gpu::Stream *, int> made;  // streams that the library made, and their devices
    char *from, *to;                    // host and device memory
    unsigned char next = 1;

    explicit Test(Src &s) : src(s), host(&s, 0, ModelUpstream::Place::Separated), dev(&s, 1, true), rt(s, host, dev) {
        rt.devices[A::api] = A::api == gpu::SYCL ? 1 : static_cast<int>(src.draw(4));
        if (rt.devices[A::api] > 0)
            rt.active[A::api] = static_cast<int>(src.draw(rt.devices[A::api]));
        from = static_cast<char *>(host.allocate(64, 16));
        to = static_cast<char *>(dev.allocate(64, 16));
        PBT_TRACE(src, "%s, %d devices, %d is the current one", gpu::api_name(A::api), rt.devices[A::api], rt.active[A::api]);
    }
    template <typename F>
    bool attempt(const char *what, bool may, F f) {
        int active = rt.active[A::api];
        rt.failed.clear();
        std::string error;
        bool threw = false;
        try {
            f();
        } catch (const std::exception &e) {
            threw = true;
            error = e.what();
        }
        check_sticky();
        PBT_CHECK(rt.active[A::api] == active, "%s leaves another device behind as the current one", what);
        PBT_CHECK(threw || rt.failed.empty(), "%s does not report that %s failed", what, rt.failed.c_str());
        PBT_CHECK(!threw || !rt.failed.empty() || may, "%s failed for no reason: %s", what, error.c_str());
        if (threw) {
            src.label("error");
            for (auto &s : rt.streams)
                s->queue.clear();
            rt.async_errors.clear();
        }
        return threw;
    }
    bool owned(gpu::Stream *s) const {
        for (auto &o : objs)
            if (o.valid() && o.owns && o.s == s)
                return true;
        return false;
    }
    std::size_t owners(gpu::Stream *s) const {
        std::size_t n = 0;
        for (auto &o : objs)
            n += o.valid() && o.owns && o.s == s;
        return n;
    }
    /// May an object be changed, or would that leave others with a stream that is gone?
    bool removable(std::size_t k) const {
        if (!objs[k].valid() || !objs[k].owns || owners(objs[k].s) > 1)
            return true;
        for (std::size_t i = 0; i < objs.size(); ++i)
            if (i != k && objs[i].valid() && objs[i].s == objs[k].s)
                return false;
        return true;
    }
    bool shared_once = false, interesting = false;
    void about_to_change(std::size_t k) {
        if (objs[k].valid() && objs[k].owns && owners(objs[k].s) > 1)
            interesting = true;
    }
    void verify() {
        for (auto &o : objs)
            if (o.valid() && o.w) {
                gpu::Stream *s = A::get(*o.w, src.coin());
                PBT_CHECK(s == o.s, "a wrapper stands for another stream than it should");
            }
        for (auto &m : made) {
            PBT_CHECK(m.first->destroyed || owned(m.first), "a stream is not destroyed with its last owner");
            PBT_CHECK(!m.first->destroyed || !owned(m.first), "a stream is destroyed while it is owned");
        }
        for (auto &r : raws)
            PBT_CHECK(!A::get(r.get())->destroyed, "a stream that is only wrapped was destroyed");
    }
    int pick() {
        // one that is valid
        std::vector<int> v;
        for (std::size_t i = 0; i < objs.size(); ++i)
            if (objs[i].valid() && objs[i].w)
                v.push_back(static_cast<int>(i));
        return v.empty() ? -1 : v[src.draw(v.size())];
    }
    void create() {
        Obj o;
        if (rt.devices[A::api] > 0 && src.chance(1, 3)) {
            if (raws.empty() || (raws.size() < 3 && src.coin())) {
                rt.no_failures = true;
                raws.push_back(A::raw());
                rt.no_failures = false;
            }
            auto *r = raws[src.draw(raws.size())].get();
            PBT_TRACE(src, "wrap a stream");
            o.w = A::wrap(r);
            o.s = A::get(r);
            objs.push_back(std::move(o));
            return;
        }
        int device = A::api == gpu::SYCL || src.coin() ? -1 : static_cast<int>(src.draw(rt.devices[A::api] + 1));
        PBT_TRACE(src, "make a stream for device %d", device);
        std::size_t before = rt.streams.size();
        bool bad = rt.devices[A::api] == 0 || device >= rt.devices[A::api];
        bool threw = attempt("creating a stream", bad, [&] {
            if constexpr (A::api == gpu::CUDA) {
                if (device >= 0)
                    o.w = std::make_unique<Wrapper>(device);
                else
                    o.w = std::make_unique<Wrapper>();
            } else
                o.w = std::make_unique<Wrapper>();
        });
        if (threw) {
            for (std::size_t i = before; i < rt.streams.size(); ++i)
                PBT_CHECK(rt.streams[i]->destroyed, "a failed construction leaves a stream behind");
            return;
        }
        PBT_CHECK(!bad, "a stream on a device that does not exist");
        PBT_CHECK(rt.streams.size() == before + 1, "%zu streams were made instead of 1", rt.streams.size() - before);
        o.s = rt.streams.back().get();
        o.owns = true;
        if (A::api == gpu::CUDA)
            PBT_CHECK(o.s->device == (device >= 0 ? device : rt.active[A::api]), "a stream is on device %d instead of %d",
                      o.s->device, device >= 0 ? device : rt.active[A::api]);
        made[o.s] = o.s->device;
        objs.push_back(std::move(o));
    }
    void use(Obj &o) {
        PBT_TRACE(src, "use a stream");
        unsigned char v = next++;
        if (o.c) {
            // copy and wait
            memset(from, v, 64);
            bool threw = attempt("a copy", false, [&] {
                vecmem::data::vector_view<const char> f(64, from);
                vecmem::data::vector_view<char> t(64, to);
                (*o.c)(f, t)->wait();
            });
            if (!threw)
                expect(v);
            return;
        }
        if (o.m) {
            void *p = nullptr;
            bool threw = attempt("an allocation", false, [&] { p = o.m->allocate(16, 8); });
            if (threw)
                return;
            PBT_CHECK(rt.blocks.count(reinterpret_cast<uintptr_t>(p)) == 1, "a block is not one of the runtime");
            PBT_CHECK(rt.blocks[reinterpret_cast<uintptr_t>(p)].context == o.s, "a block belongs to another queue");
            attempt("a deallocation", false, [&] { o.m->deallocate(p, 16, 8); });
            return;
        }
        // issue something on it
        rt.run_everything();
        memset(from, v, 64);
        rt.no_failures = true;
        if constexpr (A::api == gpu::CUDA)
            cudaMemcpyAsync(to, from, 64, cudaMemcpyDefault, static_cast<cudaStream_t>(o.w->stream()));
        else
            static_cast<sycl::queue *>(o.w->queue())->memcpy(to, from, 64);
        rt.no_failures = false;
        if constexpr (A::api == gpu::CUDA) {
            if (src.coin()) {
                PBT_TRACE(src, "synchronize");
                bool threw = attempt("synchronize", false, [&] { o.w->synchronize(); });
                if (!threw) {
                    PBT_CHECK(o.s->queue.empty(), "a synchronized stream has unfinished operations");
                    expect(v);
                }
            }
        }
    }
    void expect(unsigned char v) {
        cw::DeviceUpstream::Open open(dev);
        for (int i = 0; i < 64; ++i)
            PBT_CHECK(static_cast<unsigned char>(to[i]) == v, "a copy that was waited for has not been made");
    }
    void destroy(std::size_t k) {
        if (!removable(k))
            return;
        PBT_TRACE(src, "destroy %zu", k);
        about_to_change(k);
        // (failures of this can only be ignored)
        rt.no_failures = src.coin();
        int active = rt.active[A::api];
        objs.erase(objs.begin() + static_cast<std::ptrdiff_t>(k));
        rt.failed.clear();
        rt.no_failures = false;
        check_sticky();
        PBT_CHECK(rt.active[A::api] == active, "a destructor leaves another device behind as the current one");
    }
    void run() {
        int nops = 3 + static_cast<int>(src.draw(thorough() ? 80 : 38));
        if (src.chance(1, 3))
            rt.fail_calls.insert(src.draw(20));
        for (int i = 0; i < nops; ++i) {
            int k = pick();
            unsigned op = src.draw(12);
            if (k < 0 || (op == 0 && objs.size() < 8)) {
                create();
                verify();
                continue;
            }
            Obj &o = objs[static_cast<std::size_t>(k)];
            std::size_t j = src.draw(objs.size());
            switch (op) {
                case 1:
                    if (rt.devices[A::api] > 0)
                        rt.active[A::api] = static_cast<int>(src.draw(rt.devices[A::api]));
                    break;
                case 2:
                case 3: {
                    if (objs.size() >= 8)
                        break;
                    Obj n;
                    n.s = o.s;
                    n.owns = o.owns;
                    if (op == 2) {
                        PBT_TRACE(src, "copy %d", k);
                        n.w = std::make_unique<Wrapper>(*o.w);
                    } else {
                        PBT_TRACE(src, "move %d", k);
                        n.w = std::make_unique<Wrapper>(std::move(*o.w));
                        o.s = nullptr;
                        o.owns = false;
                    }
                    objs.push_back(std::move(n));
                    break;
                }
                case 4:
                case 5: {
                    Obj &t = objs[j];
                    if (!t.w || (static_cast<int>(j) != k && !removable(j)))
                        break;
                    // (a view of the own stream would be one of nothing)
                    if (static_cast<int>(j) != k && t.valid() && t.owns && !o.owns && t.s == o.s)
                        break;
                    PBT_TRACE(src, "%s %d to %zu", op == 4 ? "assign" : "move-assign", k, j);
                    about_to_change(j);
                    Wrapper &r = op == 4 ? (*t.w = *o.w) : (*t.w = std::move(*o.w));
                    PBT_CHECK(&r == t.w.get(), "assignment returns something else");
                    if (static_cast<int>(j) == k)
                        break;
                    t.s = o.s;
                    t.owns = o.owns;
                    if (op == 5) {
                        o.s = nullptr;
                        o.owns = false;
                    }
                    break;
                }
                case 6: {
                    if (objs.size() >= 8)
                        break;
                    Obj n;
                    n.s = o.s;
                    n.owns = o.owns;
                    if constexpr (A::api == gpu::CUDA) {
                        PBT_TRACE(src, "a copy object from %d", k);
                        n.c = std::make_unique<vecmem::cuda::async_copy>(*o.w);
                    } else {
                        unsigned kind = src.draw(5);
                        PBT_TRACE(src, "object %u from %d", kind, k);
                        if (kind == 0)
                            n.c = std::make_unique<vecmem::sycl::async_copy>(*o.w);
                        else if (kind == 1)
                            n.c = std::make_unique<vecmem::sycl::copy>(*o.w);
                        else if (kind == 2)
                            n.m = std::make_unique<vecmem::sycl::device_memory_resource>(*o.w);
                        else if (kind == 3)
                            n.m = std::make_unique<vecmem::sycl::host_memory_resource>(*o.w);
                        else
                            n.m = std::make_unique<vecmem::sycl::shared_memory_resource>(*o.w);
                    }
                    objs.push_back(std::move(n));
                    break;
                }
                case 7:
                case 8:
                    destroy(j);
                    break;
                default:
                    if (objs[j].valid()) {
                        // (an event is made on the current device)
                        int active = rt.active[A::api];
                        if (objs[j].c && !objs[j].owns)
                            rt.active[A::api] = objs[j].s->device;
                        use(objs[j]);
                        rt.active[A::api] = active;
                    }
            }
            check_sticky();
            verify();
        }
        rt.fail_calls.clear();
        rt.run_everything();
        while (!objs.empty()) {
            std::size_t k = src.draw(objs.size());
            if (!removable(k))
                k = 0;
            while (!removable(k))
                ++k;
            destroy(k);
            verify();
        }
        for (auto &r : raws)
            A::unraw(r.get());
        raws.clear();
        check_sticky();
        PBT_CHECK(rt.live_streams(A::api) == 0, "a stream is never destroyed");
        PBT_CHECK(rt.live_events() == 0, "an event is never destroyed");
        host.deallocate(from, 64, 16);
        dev.deallocate(to, 64, 16);
        if (interesting)
            src.nontrivial();
    }
};
}  // namespace

void run(Src &src) {
    if (src.coin()) {
        Test<Cuda> t(src);
        t.run();
    } else {
        Test<Sycl> t(src);
        t.run();
    }
    check_sticky();
}
}  // namespace harness
