// A model upstream memory resource with full accounting, controlled placement and faults.
#pragma once
#include <sys/mman.h>

#include <algorithm>
#include <cstdlib>
#include <cstring>
#include <map>
#include <memory>
#include <new>
#include <set>
#include <string>
#include <vector>

#include "pbt.hpp"
#include "vecmem/memory/memory_resource.hpp"

#if defined(__has_feature)
#if __has_feature(address_sanitizer)
#define PBT_HAVE_POISON
#endif
#elif defined(__SANITIZE_ADDRESS__)
#define PBT_HAVE_POISON
#endif
#ifdef PBT_HAVE_POISON
#include <sanitizer/asan_interface.h>
#define PBT_POISON(p, n) __asan_poison_memory_region((p), (n))
#define PBT_UNPOISON(p, n) __asan_unpoison_memory_region((p), (n))
#endif
#ifndef PBT_POISON
#define PBT_POISON(p, n) ((void)(p), (void)(n))
#define PBT_UNPOISON(p, n) ((void)(p), (void)(n))
#endif

namespace pbt {

/// Hide where a pointer comes from: std::pmr declares that allocate() never returns null and is
/// always aligned, and the compiler would fold our checks of exactly that away.
inline void *opaque(void *p) {
    asm volatile("" : "+r"(p) : : "memory");
    return p;
}
__attribute__((noinline)) inline void *alloc(vecmem::memory_resource &r, std::size_t size,
                                             std::size_t align) {
    void *p = r.allocate(size, align);
    return opaque(p);
}

/// A fixed-address piece of address space from which model upstreams place their blocks.
class Region {
public:
    static constexpr std::size_t SIZE = std::size_t(1) << 30;
    static Region &get(int k) {
        static std::map<int, std::unique_ptr<Region>> r;
        auto &p = r[k];
        if (!p)
            p.reset(new Region(k));
        return *p;
    }
    uintptr_t base() const { return m_base; }
    /// Memory up to this address may have been touched since the last reset
    void touch(uintptr_t end) { m_high = std::max(m_high, end); }
    void reset() {
        std::size_t n = m_high - m_base;
        if (n > 0) {
            PBT_UNPOISON(reinterpret_cast<void *>(m_base), n);
            if (n > (1u << 20))
                madvise(reinterpret_cast<void *>(m_base), (n + 4095) / 4096 * 4096, MADV_DONTNEED);
            m_high = m_base;
        }
    }

private:
    explicit Region(int k) {
        void *want = reinterpret_cast<void *>(0x300000000000ull + k * 0x10000000000ull);
        void *p = mmap(want, SIZE, PROT_READ | PROT_WRITE,
                       MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
        if (p == MAP_FAILED)
            p = mmap(nullptr, SIZE, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) {
            perror("mmap");
            exit(2);
        }
        m_base = m_high = reinterpret_cast<uintptr_t>(p);
    }
    uintptr_t m_base, m_high;
};

/// Address space without memory behind it, for blocks too large to exist here: nobody may touch
/// it, but addresses can be handed out from it (memory of a device would be no different).
class HugeSpace {
public:
    // between the shadow of the address sanitizer and the blocks of Region
    static constexpr uintptr_t BASE = 0x120000000000ull;
    static constexpr std::size_t SIZE = std::size_t(1) << 42;
    static constexpr int COUNT = 7;
    /// Requests larger than this are served from here
    static constexpr std::size_t FROM = std::size_t(2) << 20;
    static constexpr std::size_t MAX_REQUEST = std::size_t(1) << 41;
    static uintptr_t get(int k) {
        static uintptr_t base[COUNT] = {};
        if (k >= COUNT)
            return 0;
        if (!base[k]) {
            void *p = mmap(reinterpret_cast<void *>(BASE + k * SIZE), SIZE, PROT_NONE,
                           MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
            base[k] = p == MAP_FAILED ? 1 : reinterpret_cast<uintptr_t>(p);
        }
        return base[k] > 1 ? base[k] : 0;
    }
    static bool holds(uintptr_t p) { return p >= BASE && p < BASE + COUNT * SIZE; }
};

struct UpEvent {
    bool alloc;
    bool failed;
    uintptr_t ptr;
    std::size_t size, align;
};

class ModelUpstream : public vecmem::memory_resource {
public:
    enum class Place { Adjacent, Separated, Mixed };

    /// @param src    source of placement choices (may be null: deterministic)
    /// @param region which region to use (each live upstream needs its own)
    explicit ModelUpstream(Src *src = nullptr, int region = 0, Place place = Place::Mixed)
        : m_src(src), m_region(Region::get(region)), m_number(region), m_place(place) {
        m_region.reset();
        m_bump = m_region.base() + 4096;
    }
    ~ModelUpstream() { m_region.reset(); }

    // ---- configuration
    /// requests larger than this fail with bad_alloc
    std::size_t max_request = std::size_t(64) << 20;
    /// total outstanding limit
    std::size_t max_total = std::size_t(512) << 20;
    /// Serve requests of any size up to two terabytes with addresses that nothing may touch
    bool allow_huge() {
        if (!HugeSpace::get(m_number))
            return false;
        m_huge = HugeSpace::get(m_number) + 4096;
        max_request = HugeSpace::MAX_REQUEST;
        max_total = HugeSpace::SIZE / 2;
        return true;
    }
    /// Memory that one of the two gave up may turn up at the other one (as if there was one below both)
    void share_memory_with(ModelUpstream &o) { m_free = o.m_free; }
    /// calls (0-based, counted over allocation calls) that fail
    std::set<uint64_t> fail_calls;
    /// fail every allocation while true
    bool fail_all = false;
    bool accept_nulls = false;  // may null pointers be given back that were never handed out?
    /// reuse of freed addresses allowed (ABA)
    bool reuse = true;
    /// fill fresh blocks with this byte (up to fill_limit bytes)
    int fill = 0xa5;
    std::size_t fill_limit = 1 << 16;
    /// record events
    bool record = true;
    /// blocks must be fully given back before destruction? (checked by expect_balanced)
    std::string name = "upstream";

    // ---- state
    struct Block {
        std::size_t size, align;
    };
    const std::map<uintptr_t, Block> &live() const { return m_live; }
    const std::vector<UpEvent> &events() const { return m_events; }
    void clear_events() { m_events.clear(); }
    uint64_t alloc_calls() const { return m_alloc_calls; }
    uint64_t dealloc_calls() const { return m_dealloc_calls; }
    std::size_t outstanding() const { return m_outstanding; }
    std::size_t max_outstanding() const { return m_max_outstanding; }

    /// Is [p, p+n) completely inside one live block?
    bool contains(const void *p, std::size_t n) const {
        uintptr_t a = reinterpret_cast<uintptr_t>(p);
        auto it = m_live.upper_bound(a);
        if (it == m_live.begin())
            return false;
        --it;
        return a >= it->first && n <= it->second.size && a - it->first <= it->second.size - n;
    }
    /// Is [p, p+n) covered by live blocks (possibly several adjacent ones)?
    bool covers(const void *p, std::size_t n) const {
        uintptr_t a = reinterpret_cast<uintptr_t>(p), e = a + n;
        while (a < e) {
            auto it = m_live.upper_bound(a);
            if (it == m_live.begin())
                return false;
            --it;
            if (a >= it->first + it->second.size)
                return false;
            a = it->first + it->second.size;
        }
        return true;
    }
    void expect_balanced(const char *when) const {
        if (!m_live.empty()) {
            auto &b = *m_live.begin();
            fail("%s: %zu block(s) of %s never returned (first: size %zu align %zu) %s",
                 when, m_live.size(), name.c_str(), b.second.size, b.second.align, "");
        }
    }

protected:
    void *do_allocate(std::size_t size, std::size_t align) override {
        uint64_t call = m_alloc_calls++;
        if (align == 0 || (align & (align - 1)) != 0)
            fail("%s asked for alignment %zu, which is not a power of two", name.c_str(), align);
        bool f = fail_all || fail_calls.count(call) || size > max_request ||
                 m_outstanding + size > max_total;
        uintptr_t p = 0;
        if (!f && size > 0) {
            p = place(size, align);
            f = p == 0;
        }
        if (f) {
            if (record)
                m_events.push_back({true, true, 0, size, align});
            throw std::bad_alloc();
        }
        if (size == 0) {
            if (record)
                m_events.push_back({true, false, 0, 0, align});
            ++m_nulls;
            return nullptr;
        }
        m_live[p] = {size, align};
        m_outstanding += size;
        m_max_outstanding = std::max(m_max_outstanding, m_outstanding);
        if (!HugeSpace::holds(p)) {
            if (p >= m_region.base() && p < m_region.base() + Region::SIZE)
                m_region.touch(p + size);
            PBT_UNPOISON(reinterpret_cast<void *>(p), size);
            if (fill >= 0)
                memset(reinterpret_cast<void *>(p), fill, std::min(size, fill_limit));
        }
        if (record)
            m_events.push_back({true, false, p, size, align});
        return reinterpret_cast<void *>(p);
    }
    void do_deallocate(void *ptr, std::size_t size, std::size_t align) override {
        ++m_dealloc_calls;
        uintptr_t p = reinterpret_cast<uintptr_t>(ptr);
        if (ptr == nullptr) {
            // the answer to a request of no bytes
            if (!accept_nulls && (size != 0 || m_nulls == 0))
                sticky_fail("%s got back a null pointer (size %zu, align %zu), which it did not hand out (or got back "
                            "already)",
                            name.c_str(), size, align);
            else if (m_nulls > 0)
                --m_nulls;
            if (record)
                m_events.push_back({false, false, 0, size, align});
            return;
        }
        auto it = m_live.find(p);
        if (it == m_live.end()) {
            sticky_fail("%s got back %p (size %zu, align %zu), which it did not hand out (or got "
                        "back already)",
                        name.c_str(), ptr, size, align);
            return;
        }
        if (it->second.size != size || it->second.align != align)
            sticky_fail("%s got back a block with size %zu align %zu that was requested with size "
                        "%zu align %zu",
                        name.c_str(), size, align, it->second.size, it->second.align);
        on_deallocate(p, it->second.size);
        if (record)
            m_events.push_back({false, false, p, size, align});
        m_outstanding -= it->second.size;
        if (!HugeSpace::holds(p))
            PBT_POISON(ptr, it->second.size);
        if (reuse && m_free->size() < 64)
            m_free->push_back({p, it->second.size});
        m_live.erase(it);
    }
    bool do_is_equal(const vecmem::memory_resource &o) const noexcept override {
        return this == &o;
    }
    /// Hook for derived models: called before a block is given back
    virtual void on_deallocate(uintptr_t, std::size_t) {}

private:
    uint64_t choose(uint64_t n) { return m_src ? m_src->draw(n) : 0; }
    uintptr_t place(std::size_t size, std::size_t align) {
        // Reuse a freed hole?
        auto &free = *m_free;
        if (reuse && !m_free->empty() && choose(4) == 1) {
            for (std::size_t i = 0; i < free.size(); ++i) {
                uintptr_t a = (free[i].first + align - 1) & ~(align - 1);
                if (a + size <= free[i].first + free[i].second) {
                    uintptr_t end = free[i].first + free[i].second;
                    if (a + size < end)
                        free[i] = {a + size, end - (a + size)};
                    else
                        free.erase(free.begin() + i);
                    return a;
                }
            }
        }
        bool huge = m_huge && size > HugeSpace::FROM;
        uintptr_t p = huge ? m_huge : m_bump;
        bool sep = m_place == Place::Separated ||
                   (m_place == Place::Mixed && (m_src ? m_src->draw(4) >= 2 : true));
        if (sep)
            p += 64;
        p = (p + align - 1) & ~(align - 1);
        // not better aligned than asked for
        if (sep && (p & (2 * align - 1)) == 0)
            p += align;
        if (huge) {
            if (size > HugeSpace::SIZE || p + size > HugeSpace::get(m_number) + HugeSpace::SIZE)
                return 0;
            m_huge = p + size;
            return p;
        }
        if (size > Region::SIZE || p + size + 65536 > m_region.base() + Region::SIZE)
            return 0;
        // Gap before the block
        if (p > m_bump) {
            m_region.touch(p);
            PBT_POISON(reinterpret_cast<void *>(m_bump), p - m_bump);
        }
        m_bump = p + size;
        // Space behind it, until it is used for something else
        m_region.touch(m_bump + 256);
        PBT_POISON(reinterpret_cast<void *>(m_bump), 256);
        return p;
    }
    Src *m_src;
    Region &m_region;
    int m_number;
    Place m_place;
    uintptr_t m_bump, m_huge = 0;
    std::map<uintptr_t, Block> m_live;
    /// outstanding answers to requests of no bytes
    uint64_t m_nulls = 0;
    std::shared_ptr<std::vector<std::pair<uintptr_t, std::size_t>>> m_free =
        std::make_shared<std::vector<std::pair<uintptr_t, std::size_t>>>();
    std::vector<UpEvent> m_events;
    uint64_t m_alloc_calls = 0, m_dealloc_calls = 0;
    std::size_t m_outstanding = 0, m_max_outstanding = 0;
};

/// The blocks a user currently holds from the resource under test.
class LiveSet {
public:
    struct Block {
        std::size_t size, align;
        uint64_t tag;
        int owner;
    };
    std::map<uintptr_t, Block> blocks;

    /// Register a new block: not null, aligned, disjoint from all live ones. Fills it.
    void add(void *ptr, std::size_t size, std::size_t align, std::size_t promised_align,
             int owner = 0) {
        ptr = opaque(ptr);
        PBT_CHECK(ptr != nullptr, "allocate(%zu, %zu) returned null", size, align);
        uintptr_t p = reinterpret_cast<uintptr_t>(ptr);
        PBT_CHECK(p % promised_align == 0, "allocate(%zu, %zu) returned %p, not aligned to %zu", size,
                  align, ptr, promised_align);
        PBT_CHECK(p + size >= p, "allocate(%zu, %zu) wraps around", size, align);
        auto it = blocks.upper_bound(p);
        if (it != blocks.end())
            PBT_CHECK(p + size <= it->first,
                      "allocate(%zu, %zu) returned %p overlapping the live block at %p (size %zu)",
                      size, align, ptr, reinterpret_cast<void *>(it->first), it->second.size);
        if (it != blocks.begin()) {
            --it;
            PBT_CHECK(it->first + it->second.size <= p,
                      "allocate(%zu, %zu) returned %p overlapping the live block at %p (size %zu)",
                      size, align, ptr, reinterpret_cast<void *>(it->first), it->second.size);
        }
        Block b{size, align, m_next++, owner};
        blocks[p] = b;
        each_byte(p, b, [](unsigned char *q, unsigned char v) { *q = v; });
    }
    void verify(uintptr_t p) const {
        auto it = blocks.find(p);
        if (it == blocks.end())
            return;
        bool ok = true;
        each_byte(p, it->second, [&](unsigned char *q, unsigned char v) { ok = ok && *q == v; });
        PBT_CHECK(ok, "contents of the live block at %p (size %zu) changed",
                  reinterpret_cast<void *>(p), it->second.size);
    }
    void verify_all() const {
        for (auto &b : blocks)
            verify(b.first);
    }
    bool empty() const { return blocks.empty(); }
    std::size_t size() const { return blocks.size(); }
    /// The k-th block (by age order of address map)
    uintptr_t nth(std::size_t k) const {
        auto it = blocks.begin();
        std::advance(it, k);
        return it->first;
    }
    Block take(uintptr_t p) {
        verify(p);
        Block b = blocks.at(p);
        blocks.erase(p);
        return b;
    }

private:
    template <typename F>
    static void each_byte(uintptr_t p, const Block &b, F &&f) {
        auto val = [&](std::size_t i) {
            return static_cast<unsigned char>((b.tag * 0x9e37u + i * 7u + 1u) & 0xff);
        };
        unsigned char *q = reinterpret_cast<unsigned char *>(p);
        if (HugeSpace::holds(p))
            return;
        if (b.size <= 512) {
            for (std::size_t i = 0; i < b.size; ++i)
                f(q + i, val(i));
        } else {
            for (std::size_t i = 0; i < 64; ++i)
                f(q + i, val(i));
            for (std::size_t i = 64; i + 64 < b.size; i += 4093)
                f(q + i, val(i));
            for (std::size_t i = b.size - 64; i < b.size; ++i)
                f(q + i, val(i));
        }
    }
    uint64_t m_next = 1;
};

}  // namespace pbt
