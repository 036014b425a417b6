// libFuzzer entry: bytes are decoded into the draws of a case. The draws of the running
// case live in a file (PBT_RECORD) so that the random driver can confirm and shrink a crash.
#include <fcntl.h>
#include <sys/mman.h>
#include <unistd.h>

#include <cstdlib>
#include <map>

#include "pbt.hpp"

#if __has_feature(address_sanitizer)
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:allocator_may_return_null=1:symbolize=0:"
           "detect_stack_use_after_return=0:quarantine_size_mb=32:handle_abort=1:"
           "max_allocation_size_mb=2048:hard_rss_limit_mb=3500:malloc_context_size=2";
}
#endif

namespace pbt {
void reset_sticky();
static CaseRecord *g_rec = nullptr;
CaseRecord *current_record() {
    return g_rec;
}
int label_index(const char *) {
    return 0;
}
bool thorough() {
    return true;
}
}  // namespace pbt

extern "C" int LLVMFuzzerInitialize(int *, char ***) {
    const char *f = getenv("PBT_RECORD");
    int flags = MAP_SHARED;
    int fd = -1;
    if (f) {
        fd = open(f, O_RDWR | O_CREAT, 0644);
        if (fd < 0 || ftruncate(fd, sizeof(pbt::CaseRecord)) != 0)
            abort();
    } else {
        flags |= MAP_ANONYMOUS;
    }
    pbt::g_rec = static_cast<pbt::CaseRecord *>(
        mmap(nullptr, sizeof(pbt::CaseRecord), PROT_READ | PROT_WRITE, flags, fd, 0));
    return 0;
}

extern "C" int LLVMFuzzerTestOneInput(const uint8_t *data, size_t size) {
    pbt::reset_sticky();
    pbt::Src src(pbt::g_rec, data, size);
    try {
        harness::run(src);
        pbt::check_sticky();
    } catch (const pbt::Discard &) {
        if (pbt::has_sticky())
            abort();
        return -1;
    } catch (const pbt::Fail &f) {
        fprintf(stderr, "FAIL: %s\n", f.msg.c_str());
        abort();
    } catch (...) {
        fprintf(stderr, "FAIL: unexpected exception\n");
        abort();
    }
    return 0;
}
