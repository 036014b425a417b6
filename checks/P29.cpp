// The memory resources of the CUDA, HIP and SYCL back ends over a model of their runtimes: kinds of memory, devices, errors.
// check: lib=memory,utils,cuda,hip,sycl
// assume: the runtimes behave as the model in fake/ does; they are used from one thread
#include <hip/hip_runtime_api.h>
#include <cuda_runtime_api.h>

#include <gpu.hpp>
#include <sycl/sycl.hpp>

#include <vecmem/memory/cuda/device_memory_resource.hpp>
#include <vecmem/memory/cuda/host_memory_resource.hpp>
#include <vecmem/memory/cuda/managed_memory_resource.hpp>
#include <vecmem/memory/hip/device_memory_resource.hpp>
#include <vecmem/memory/hip/host_memory_resource.hpp>
#include <vecmem/memory/hip/managed_memory_resource.hpp>
#include <vecmem/memory/sycl/device_memory_resource.hpp>
#include <vecmem/memory/sycl/host_memory_resource.hpp>
#include <vecmem/memory/sycl/shared_memory_resource.hpp>

using namespace pbt;

namespace harness {
const char *const id = "P29";
const char *const rule =
    "histories of 3..40 creations, destructions, allocations, deallocations (also through equal resources), comparisons, "
    "changes of the current device and injected errors over resources of all back ends, with 0 to 3 devices; non-trivial: "
    "two resources of one back end and two blocks were alive together";
const uint64_t quick_cases = 400000;
const uint64_t thorough_cases = 4800000;

namespace {
struct Res {
    gpu::Api api;
    gpu::Kind kind;
    int device;  // -1: none
    const void *queue;
    std::unique_ptr<vecmem::memory_resource> mr;
};
struct Blk {
    std::size_t size, align;
    int owner;
};
struct Test {
    Src &src;
    ModelUpstream host;
    cw::DeviceUpstream dev;
    gpu::Runtime rt;
    std::vector<std::unique_ptr<sycl::queue>> queues;
    std::vector<Res> res;
    std::map<uintptr_t, Blk> blocks;
    explicit Test(Src &s)
        : src(s), host(&s, 0, ModelUpstream::Place::Separated), dev(&s, 1, true), rt(s, host, dev) {
        host.name = "host memory";
        host.reuse = dev.reuse = src.coin();
        rt.devices[gpu::CUDA] = static_cast<int>(src.draw(4));
        rt.devices[gpu::HIP] = static_cast<int>(src.draw(4));
        for (int a = 0; a < 2; ++a)
            if (rt.devices[a] > 1)
                rt.active[a] = static_cast<int>(src.draw(rt.devices[a]));
        PBT_TRACE(src, "%d CUDA devices (%d is active), %d HIP devices (%d)", rt.devices[0], rt.active[0], rt.devices[1],
                  rt.active[1]);
    }
    /// Runs something that may throw because of an injected error, or some other reason
    /// @returns whether it did
    template <typename F>
    bool attempt(const char *what, bool may, F f) {
        int active[2] = {rt.active[0], rt.active[1]};
        rt.failed.clear();
        std::string error;
        bool threw = false;
        try {
            f();
        } catch (const std::exception &e) {
            threw = true;
            error = e.what();
        }
        check_sticky();
        PBT_CHECK(rt.active[0] == active[0] && rt.active[1] == active[1], "%s leaves another device behind as the current one",
                  what);
        bool failed = !rt.failed.empty();
        PBT_CHECK(threw || !failed, "%s does not report that %s failed", what, rt.failed.c_str());
        PBT_CHECK(!threw || failed || may, "%s failed for no reason: %s", what, error.c_str());
        if (threw)
            src.label("error");
        return threw;
    }
    void create() {
        Res r;
        r.queue = nullptr;
        r.device = -1;
        switch (src.draw(9)) {
            case 0:
            case 1:
                r.api = gpu::CUDA;
                r.kind = gpu::DEVICE;
                break;
            case 2:
            case 3:
                r.api = gpu::HIP;
                r.kind = gpu::DEVICE;
                break;
            default:
                r.api = static_cast<gpu::Api>(src.draw(3));
                r.kind = static_cast<gpu::Kind>(src.draw(3));
        }
        bool def = src.coin();
        if (r.api != gpu::SYCL && r.kind == gpu::DEVICE) {
            r.device = def ? (rt.devices[r.api] ? rt.active[r.api] : 0) : static_cast<int>(src.draw(rt.devices[r.api] + 1));
        }
        PBT_TRACE(src, "make %s %s resource %zu%s%s", api_name(r.api), kind_name(r.kind), res.size(), def ? " (default)" : "",
                  r.device >= 0 ? (" for device " + std::to_string(r.device)).c_str() : "");
        bool threw = attempt("a constructor", false, [&] {
            switch (r.api * 3 + r.kind) {
                case 0:
                    r.mr = def ? std::make_unique<vecmem::cuda::device_memory_resource>()
                               : std::make_unique<vecmem::cuda::device_memory_resource>(r.device);
                    break;
                case 1:
                    r.mr = std::make_unique<vecmem::cuda::host_memory_resource>();
                    break;
                case 2:
                    r.mr = std::make_unique<vecmem::cuda::managed_memory_resource>();
                    break;
                case 3:
                    r.mr = def ? std::make_unique<vecmem::hip::device_memory_resource>()
                               : std::make_unique<vecmem::hip::device_memory_resource>(r.device);
                    break;
                case 4:
                    r.mr = std::make_unique<vecmem::hip::host_memory_resource>();
                    break;
                case 5:
                    r.mr = std::make_unique<vecmem::hip::managed_memory_resource>();
                    break;
                default: {
                    auto make = [&](const auto &q) -> std::unique_ptr<vecmem::memory_resource> {
                        if (r.kind == gpu::DEVICE)
                            return std::make_unique<vecmem::sycl::device_memory_resource>(q);
                        if (r.kind == gpu::HOST)
                            return std::make_unique<vecmem::sycl::host_memory_resource>(q);
                        return std::make_unique<vecmem::sycl::shared_memory_resource>(q);
                    };
                    if (def) {
                        vecmem::sycl::queue_wrapper w;
                        r.queue = static_cast<sycl::queue *>(w.queue())->fake_stream();
                        r.mr = make(w);
                    } else {
                        if (queues.empty() || src.coin())
                            queues.push_back(std::make_unique<sycl::queue>());
                        sycl::queue *q = queues[src.draw(queues.size())].get();
                        r.queue = q->fake_stream();
                        r.mr = make(vecmem::sycl::queue_wrapper(static_cast<void *>(q)));
                    }
                }
            }
        });
        if (!threw)
            res.push_back(std::move(r));
    }
    /// Are blocks of this one left?
    bool used(std::size_t k) const {
        for (auto &b : blocks)
            if (b.second.owner == static_cast<int>(k))
                return true;
        return false;
    }
    void allocate(std::size_t k) {
        Res &r = res[k];
        std::size_t size = src.chance(1, 6) ? 0 : src.chance(1, 10) ? rt.max_alloc + 1 + src.draw(100) : 1 + src.draw(src.coin() ? 40 : 5000);
        std::size_t align = std::size_t(1) << src.draw(r.api == gpu::SYCL ? 10 : 7);
        // (pinned and managed memory is only given out well enough aligned for anything that is fundamental)
        if (r.api != gpu::SYCL && align > 16)
            align = r.kind == gpu::DEVICE ? align : 16;
        PBT_TRACE(src, "allocate(%zu, %zu) from %zu", size, align, k);
        std::set<uintptr_t> before;
        for (auto &b : rt.blocks)
            before.insert(b.first);
        bool bad_device = r.api != gpu::SYCL && (rt.devices[r.api] == 0 || r.device >= rt.devices[r.api]);
        uint64_t calls = rt.calls;
        void *p = nullptr;
        bool threw = attempt("allocate", bad_device || size > rt.max_alloc, [&] { p = r.mr->allocate(size, align); });
        std::vector<uintptr_t> fresh;
        for (auto &b : rt.blocks)
            if (before.count(b.first) == 0)
                fresh.push_back(b.first);
        if (size == 0) {
            PBT_CHECK(!threw && p == nullptr && rt.calls == calls && fresh.empty(), "an empty request is not answered with null");
            return;
        }
        if (threw) {
            PBT_CHECK(fresh.empty(), "a failed request leaves a block behind");
            return;
        }
        PBT_CHECK(!bad_device && size <= rt.max_alloc, "a request that cannot be served did not fail");
        PBT_CHECK(fresh.size() == 1 && fresh[0] == reinterpret_cast<uintptr_t>(p), "a request is not answered with one new block");
        gpu::Block b = rt.blocks[fresh[0]];
        PBT_CHECK(b.api == r.api && b.kind == r.kind, "a %s %s resource made %s memory of %s", api_name(r.api), kind_name(r.kind),
                  kind_name(b.kind), api_name(b.api));
        PBT_CHECK(b.size >= size, "a block of %zu bytes for a request of %zu", b.size, size);
        PBT_CHECK(fresh[0] % align == 0, "a block is not aligned to %zu bytes", align);
        if (r.device >= 0)
            PBT_CHECK(b.device == r.device, "a block is on device %d instead of %d", b.device, r.device);
        if (r.queue)
            PBT_CHECK(b.context == r.queue, "a block belongs to another queue");
        blocks[fresh[0]] = {size, align, static_cast<int>(k)};
    }
    void release(uintptr_t p, std::size_t by) {
        Blk b = blocks[p];
        PBT_TRACE(src, "deallocate a block of %zu bytes of %d through %zu", b.size, b.owner, by);
        std::size_t n = rt.blocks.size();
        // (a failing call has still freed it)
        attempt("deallocate", false, [&] { res[by].mr->deallocate(reinterpret_cast<void *>(p), b.size, b.align); });
        PBT_CHECK(rt.blocks.count(p) == 0 && rt.blocks.size() + 1 == n, "a block was not freed");
        blocks.erase(p);
    }
    void compare() {
        std::size_t i = src.draw(res.size()), j = src.draw(res.size());
        Res &a = res[i], &b = res[j];
        bool eq = *a.mr == *b.mr, qe = *b.mr == *a.mr;
        PBT_CHECK(eq == qe, "comparison of resources is not symmetric");
        PBT_CHECK(a.mr->is_equal(*b.mr) == eq && (*a.mr != *b.mr) != eq, "the ways to compare resources differ");
        bool same = a.api == b.api && a.kind == b.kind && a.device == b.device && a.queue == b.queue;
        PBT_CHECK(eq || !same, "resources that stand for the same memory are not equal");
        if (eq) {
            // each can take back what the other one made
            for (auto &x : blocks)
                if (x.second.owner == static_cast<int>(i)) {
                    release(x.first, j);
                    src.label("deallocated by an equal one");
                    break;
                }
            // (kinds of memory may only be mixed up where that is right for every block)
            PBT_CHECK(a.api == b.api && a.device == b.device && a.queue == b.queue, "resources for different memory are equal");
            PBT_CHECK(a.api == gpu::SYCL || a.kind == b.kind, "resources for different kinds of memory are equal");
        }
        vecmem::memory_resource &plain = host;
        PBT_CHECK(!(*a.mr == plain) && !(plain == *a.mr), "a resource equals one of another type");
    }
    void run() {
        int nops = 3 + static_cast<int>(src.draw(thorough() ? 80 : 38));
        bool faults = src.coin();
        for (int i = 0; i < nops; ++i) {
            if (faults && src.chance(1, 4)) {
                rt.fail_calls.clear();
                rt.fail_calls.insert(rt.calls + src.draw(2));
            }
            if (res.empty() || (res.size() < 6 && src.chance(1, 4))) {
                create();
                continue;
            }
            switch (src.draw(10)) {
                case 0: {
                    int a = static_cast<int>(src.draw(2));
                    if (rt.devices[a] > 0) {
                        rt.active[a] = static_cast<int>(src.draw(rt.devices[a]));
                        PBT_TRACE(src, "%s device %d becomes the current one", gpu::api_name(static_cast<gpu::Api>(a)), rt.active[a]);
                    }
                    break;
                }
                case 1:
                    compare();
                    break;
                case 2:
                    PBT_TRACE(src, "deallocate null");
                    attempt("deallocate", false, [&] { res[src.draw(res.size())].mr->deallocate(nullptr, src.draw(100), 8); });
                    break;
                case 3:
                case 4:
                case 5:
                    if (!blocks.empty()) {
                        auto it = blocks.begin();
                        std::advance(it, src.draw(blocks.size()));
                        release(it->first, static_cast<std::size_t>(it->second.owner));
                    }
                    break;
                default:
                    allocate(src.draw(res.size()));
            }
            check_sticky();
            PBT_CHECK(rt.blocks.size() == blocks.size(), "%zu blocks instead of %zu", rt.blocks.size(), blocks.size());
            for (auto &b : blocks)
                PBT_CHECK(rt.blocks.count(b.first) == 1, "a live block was freed");
            bool two = false;
            for (std::size_t x = 0; x < res.size(); ++x)
                for (std::size_t y = 0; y < x; ++y)
                    two = two || res[x].api == res[y].api;
            if (two && blocks.size() >= 2)
                src.nontrivial();
        }
        rt.fail_calls.clear();
        while (!blocks.empty())
            release(blocks.begin()->first, static_cast<std::size_t>(blocks.begin()->second.owner));
        while (!res.empty()) {
            attempt("a destructor", false, [&] { res.pop_back(); });
        }
        queues.clear();
        check_sticky();
        PBT_CHECK(rt.live_streams(gpu::SYCL) == 0, "%zu queue(s) are never destroyed", rt.live_streams(gpu::SYCL));
    }
};
}  // namespace

void run(Src &src) {
    {
        Test t(src);
        t.run();
        check_sticky();
        t.host.expect_balanced("everything released");
        t.dev.expect_balanced("everything released");
    }
}
}  // namespace harness
