// The copy objects of the CUDA, HIP and SYCL back ends, run on a model of their runtimes through the same histories as
// the others: device memory that only the runtime may touch, operations that run late or out of order, injected errors.
// check: lib=memory,utils,cuda,hip,sycl
// assume: the runtimes behave as the model in fake/ does; operations that depend on each other are put into one in-order stream, or waited for
#include <cuda_runtime_api.h>
#include <hip/hip_runtime_api.h>

#include <gpu.hpp>
#include <sycl/sycl.hpp>

#include <vecmem/utils/cuda/async_copy.hpp>
#include <vecmem/utils/cuda/copy.hpp>
#include <vecmem/utils/cuda/stream_wrapper.hpp>
#include <vecmem/utils/hip/copy.hpp>
#include <vecmem/utils/sycl/async_copy.hpp>
#include <vecmem/utils/sycl/copy.hpp>
#include <vecmem/utils/sycl/queue_wrapper.hpp>

using namespace pbt;

namespace harness {
const char *const id = "P30";
const char *const rule =
    "histories of 2..11 operations of all kinds over 1D, jagged and SoA containers in host and device memory, through one "
    "of the five copy classes of the back ends, on own or wrapped streams and queues, on one of up to 3 devices, with the "
    "events waited for, dropped or ignored, and with up to one failing call; non-trivial: a raw operation ran late (for the "
    "asynchronous ones), or two raw operations were made, and one container was on the device, or an error was injected";
const uint64_t quick_cases = 250000;
const uint64_t thorough_cases = 3000000;

namespace {
struct Gpu : cw::Backend {
    gpu::Runtime rt;
    enum Which { CUDA_SYNC, CUDA_ASYNC, HIP_SYNC, SYCL_SYNC, SYCL_ASYNC } which;
    bool in_order = true, ignored = false;
    std::unique_ptr<vecmem::cuda::stream_wrapper> cuda_stream;
    std::unique_ptr<sycl::queue> queue;
    cudaStream_t raw_stream = nullptr;
    std::vector<std::unique_ptr<vecmem::copy>> copies;
    Src &src;

    explicit Gpu(cw::World &w) : rt(w.src, w.host, w.dev), src(w.src) {
        which = static_cast<Which>(src.draw(5));
        for (int a = 0; a < 2; ++a) {
            rt.devices[a] = 1 + static_cast<int>(src.draw(3));
            rt.active[a] = static_cast<int>(src.draw(rt.devices[a]));
        }
        rt.lazy = true;
        unsigned n = 1 + static_cast<unsigned>(src.draw(2));
        switch (which) {
            case CUDA_SYNC:
                for (unsigned i = 0; i < n; ++i)
                    copies.push_back(std::make_unique<vecmem::cuda::copy>());
                break;
            case HIP_SYNC:
                for (unsigned i = 0; i < n; ++i)
                    copies.push_back(std::make_unique<vecmem::hip::copy>());
                break;
            case CUDA_ASYNC: {
                int device = src.coin() ? vecmem::cuda::stream_wrapper::INVALID_DEVICE : static_cast<int>(src.draw(rt.devices[0]));
                unsigned how = static_cast<unsigned>(src.draw(3));
                if (how == 0) {
                    PBT_TRACE(src, "a wrapped CUDA stream");
                    cudaStreamCreate(&raw_stream);
                    cuda_stream = std::make_unique<vecmem::cuda::stream_wrapper>(static_cast<void *>(raw_stream));
                } else {
                    PBT_TRACE(src, "a CUDA stream on device %d, the current one is %d", device, rt.active[0]);
                    cuda_stream = std::make_unique<vecmem::cuda::stream_wrapper>(device);
                    raw_stream = static_cast<cudaStream_t>(cuda_stream->stream());
                }
                for (unsigned i = 0; i < n; ++i)
                    copies.push_back(std::make_unique<vecmem::cuda::async_copy>(*cuda_stream));
                if (how == 2)
                    cuda_stream.reset();
                break;
            }
            default: {
                in_order = src.coin();
                queue = in_order ? std::make_unique<sycl::queue>(sycl::property::queue::in_order())
                                 : std::make_unique<sycl::queue>();
                vecmem::sycl::queue_wrapper q(static_cast<void *>(queue.get()));
                if (!in_order && src.coin())
                    q = vecmem::sycl::queue_wrapper();
                PBT_TRACE(src, "an %s SYCL queue", in_order ? "in-order" : "out-of-order");
                for (unsigned i = 0; i < n; ++i)
                    if (which == SYCL_SYNC)
                        copies.push_back(std::make_unique<vecmem::sycl::copy>(q));
                    else
                        copies.push_back(std::make_unique<vecmem::sycl::async_copy>(q));
            }
        }
        const char *names[] = {"cuda::copy", "cuda::async_copy", "hip::copy", "sycl::copy", "sycl::async_copy"};
        PBT_TRACE(src, "%s (%u objects)", names[which], n);
        if (src.chance(1, 4))
            rt.fail_calls.insert(rt.calls + src.draw(30));
    }
    bool is_async() const { return which == CUDA_ASYNC || which == SYCL_ASYNC; }
    const vecmem::copy &copy() override { return *copies[src.draw(copies.size())]; }
    bool defers() override { return is_async() && in_order; }
    uint64_t mark() override { return rt.next_op; }
    void expect_done(uint64_t before, uint64_t after, const char *when) {
        check_sticky();
        PBT_CHECK(rt.failed.empty(), "%s: the failure of %s is not reported", when, rt.failed.c_str());
        for (auto id : rt.async_errors)
            PBT_CHECK(id < before || id >= after, "%s: the failure of an operation is not reported", when);
        for (auto &s : rt.streams)
            for (auto &o : s->queue)
                PBT_CHECK(o.id < before || o.id >= after, "%s, one of its raw operations has not been done", when);
    }
    void finish(vecmem::copy::event_type e, uint64_t before, uint64_t after) override {
        if (!is_async())
            expect_done(before, after, "after a synchronous operation");
        switch (is_async() ? src.draw(8) : 0) {
            case 0: {
                forget(before, after);
                rt.no_failures = true;
                e.reset();
                rt.no_failures = false;
                if (!rt.failed.empty() && is_async())
                    // (a destructor cannot report anything)
                    throw std::runtime_error("dropped");
                expect_done(before, after, "after the event was dropped");
                break;
            }
            case 1:
                e->ignore();
                forget(before, after);
                ignored = true;
                if (!in_order)
                    synchronize();
                // (another wait has nothing to wait for)
                if (src.coin())
                    e->wait();
                break;
            default:
                e->wait();
                expect_done(before, after, "after the event was waited for");
                if (src.chance(1, 4))
                    e->wait();
        }
        src.label(which == CUDA_SYNC ? "cuda::copy" : which == CUDA_ASYNC ? "cuda::async_copy" : which == HIP_SYNC ? "hip::copy"
                  : which == SYCL_SYNC ? "sycl::copy" : "sycl::async_copy");
    }
    /// Errors of these cannot be reported
    void forget(uint64_t before, uint64_t after) {
        if (is_async())
            rt.async_errors.erase(rt.async_errors.lower_bound(before), rt.async_errors.lower_bound(after));
    }
    void settled() override {
        check_sticky();
        if (ignored)
            synchronize();
        expect_done(0, UINT64_MAX, "with everything waited for");
    }
    void synchronize() {
        ignored = false;
        if (which == CUDA_ASYNC && cuda_stream)
            cuda_stream->synchronize();
        else if (which == CUDA_ASYNC)
            rt.run_all(*raw_stream);
        else
            rt.run_everything();
    }
    void flush() override {
        // (of an operation that was refused by an exception)
        rt.run_everything();
        rt.async_errors.clear();
    }
    bool interesting() override { return is_async() ? rt.late_ops > 0 : rt.done_ops > 1; }
};
}  // namespace

void run(Src &src) {
    cw::World w(src, true, cw::COPY | cw::TO | cw::SIZES | cw::SETUP | cw::FILL,
                [](cw::World &x) -> std::unique_ptr<cw::Backend> { return std::make_unique<Gpu>(x); });
    Gpu &g = static_cast<Gpu &>(*w.backend);
    int active[2] = {g.rt.active[0], g.rt.active[1]};
    try {
        switch (src.draw(3)) {
            case 0:
                cw::any_1d(w);
                break;
            case 1:
                cw::any_jagged(w);
                break;
            default:
                cw::any_soa(w);
        }
    } catch (const std::exception &e) {
        if (g.rt.failed.empty())
            fail("an exception for no reason: %s", e.what());
        g.rt.no_failures = true;
        PBT_TRACE(src, "caught: %s", e.what());
        src.label("error");
        src.nontrivial();
        // what is unfinished will not be done
        for (auto &s : g.rt.streams)
            s->queue.clear();
    }
    check_sticky();
    g.rt.fail_calls.clear();
    w.pending.clear();
    PBT_CHECK(g.rt.active[0] == active[0] && g.rt.active[1] == active[1], "another device is the current one now");
    g.copies.clear();
    g.cuda_stream.reset();
    if (g.raw_stream != nullptr && g.which == Gpu::CUDA_ASYNC && !g.raw_stream->destroyed)
        cudaStreamDestroy(g.raw_stream);
    g.queue.reset();
    check_sticky();
    PBT_CHECK(g.rt.live_events() == 0, "%zu event(s) are never destroyed", g.rt.live_events());
    for (int a = 0; a < 3; ++a)
        PBT_CHECK(g.rt.live_streams(static_cast<gpu::Api>(a)) == 0, "a stream is never destroyed");
}
}  // namespace harness
