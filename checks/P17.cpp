// Pool memory resource against a model of its buckets and its cache.
// check: lib=memory
#include <vecmem/memory/pool_memory_resource.hpp>

#include "stack.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P17";
const char *const rule =
    "random option sets (valid and invalid) and, for valid ones, a random allocation history around "
    "the bucket and oversize limits; non-trivial: refused options, or a bucket block was reused and "
    "an oversized one handled";
const uint64_t quick_cases = 150000;
const uint64_t thorough_cases = 1800000;

using opts = vecmem::pool_memory_resource::options;
using u128 = unsigned __int128;

static bool pow2(std::size_t x) {
    return x != 0 && (x & (x - 1)) == 0;
}
static bool valid(const opts &o) {
    return pow2(o.smallest_block_size) && pow2(o.largest_block_size) && pow2(o.alignment) &&
           o.max_bytes_per_chunk > 0 && o.max_blocks_per_chunk > 0 && o.min_blocks_per_chunk > 0 &&
           o.min_blocks_per_chunk <= o.max_blocks_per_chunk &&
           o.min_bytes_per_chunk <= o.max_bytes_per_chunk &&
           o.smallest_block_size <= o.largest_block_size &&
           u128(o.min_blocks_per_chunk) * o.largest_block_size <= o.max_bytes_per_chunk &&
           u128(o.max_blocks_per_chunk) * o.smallest_block_size >= o.min_bytes_per_chunk &&
           o.alignment <= o.smallest_block_size;
}
static void spoil(Src &src, opts &o) {
    switch (src.draw(15)) {
        case 0: o.smallest_block_size += 1 + src.draw(3); break;
        case 1: o.largest_block_size -= 1; break;
        case 2: o.alignment = 3 << src.draw(3); break;
        case 3: o.alignment = o.smallest_block_size * 2; break;
        case 4: std::swap(o.smallest_block_size, o.largest_block_size); break;
        case 5: o.min_blocks_per_chunk = o.max_blocks_per_chunk + 1; break;
        case 6: o.min_bytes_per_chunk = o.max_bytes_per_chunk + 1; break;
        case 7: o.max_bytes_per_chunk = o.min_blocks_per_chunk * o.largest_block_size - 1; break;
        case 8: o.max_blocks_per_chunk = 0; break;
        case 9: o.max_bytes_per_chunk = 0; break;
        case 10: o.min_blocks_per_chunk = 0; break;
        case 11: o.smallest_block_size = 0; break;
        case 12: o.largest_block_size = 0; break;
        case 13: o.min_bytes_per_chunk = o.max_blocks_per_chunk * o.smallest_block_size + 1; break;
        default:
            // products that do not fit into 64 bits
            o.max_blocks_per_chunk = std::size_t(1) << 62;
            o.min_blocks_per_chunk = std::size_t(1) << (59 + src.draw(4));
            o.max_bytes_per_chunk = src.coin() ? SIZE_MAX : std::size_t(1) << 40;
            break;
    }
}
static std::size_t log2up(std::size_t s) {
    std::size_t g = 0;
    while (g < 63 && (std::size_t(1) << g) < s)
        ++g;
    return g;
}

void run(Src &src) {
    ModelUpstream up(&src, 0, static_cast<ModelUpstream::Place>(src.draw(3)));
    up.fill_limit = 4096;
    bool huge = src.chance(1, 10) && up.allow_huge();
    if (huge)
        src.label("huge requests");
    opts o = random_pool_options(src);
    if (huge && src.coin()) {
        // large blocks
        unsigned up_by = src.draw(22);
        o.largest_block_size = std::size_t(1) << (14 + src.draw(10) + up_by);
        o.max_bytes_per_chunk = o.min_blocks_per_chunk * o.largest_block_size + src.draw(4096);
    }
    if (o.max_blocks_per_chunk == (1u << 20) && src.coin())
        o.max_blocks_per_chunk = 64;
    bool spoilt = src.chance(1, 4);
    if (spoilt)
        spoil(src, o);
    PBT_TRACE(src,
              "pool(blocks/chunk %zu..%zu, bytes/chunk %zu..%zu, block %zu..%zu, align %zu, cache "
              "%d, cutoffs %zu %zu)",
              o.min_blocks_per_chunk, o.max_blocks_per_chunk, o.min_bytes_per_chunk,
              o.max_bytes_per_chunk, o.smallest_block_size, o.largest_block_size, o.alignment,
              (int)o.cache_oversized, o.cached_size_cutoff_factor, o.cached_alignment_cutoff_factor);
    bool ok = valid(o);
    std::unique_ptr<vecmem::pool_memory_resource> res;
    bool threw = throws<std::invalid_argument>(
        [&] { res = std::make_unique<vecmem::pool_memory_resource>(up, o); });
    PBT_CHECK(threw != ok, ok ? "valid options were refused" : "inconsistent options were accepted");
    PBT_CHECK(up.alloc_calls() == 0, "construction allocated");
    if (!ok) {
        src.label("invalid options");
        src.nontrivial();
        return;
    }
    if (src.chance(1, 4))
        for (int i = 0; i < 4; ++i)
            up.fail_calls.insert(src.draw(12));
    LiveSet live;
    struct Info {
        bool oversized;
        std::size_t bucket;
        uintptr_t end;
        std::size_t osize, oalign;  // of the underlying oversized block
    };
    std::map<uintptr_t, Info> info;
    std::map<std::size_t, std::size_t> free_count;
    std::map<uintptr_t, std::pair<std::size_t, std::size_t>> cached;  // size, align as requested
    bool bucket_reuse = false, over = false;
    pbt::History hist(src, thorough() ? 100 : 50, 1500, 200);
    int nops = hist.length();
    auto release = [&](uintptr_t p) {
        auto b = live.take(p);
        Info i = info.at(p);
        info.erase(p);
        PBT_TRACE(src, "free(%zu,%zu)", b.size, b.align);
        up.clear_events();
        res->deallocate(reinterpret_cast<void *>(p), b.size, b.align);
        if (i.oversized && !o.cache_oversized) {
            PBT_CHECK(up.events().size() == 1 && !up.events()[0].alloc && up.events()[0].ptr == p,
                      "an oversized block was not returned upstream at once (caching is off)");
        } else {
            PBT_CHECK(up.events().empty(), "freeing a pooled block called upstream");
            if (i.oversized)
                cached[p] = {i.osize, i.oalign};
            else
                ++free_count[i.bucket];
        }
    };
    std::vector<std::pair<std::size_t, std::size_t>> recent;
    for (int op = 0; op < nops; ++op) {
        unsigned w = hist.next(16, 9, 15);
        if (live.empty() || w < 9) {
            std::size_t size, align;
            switch (src.draw(9)) {
                case 0:
                case 1: size = 1 + src.draw(64); break;
                case 2: size = 1 + src.draw(std::min<std::size_t>(o.largest_block_size, 100000)); break;
                case 3: size = o.largest_block_size + src.draw(3) - 1; break;
                case 4: size = o.smallest_block_size + src.draw(3) - 1; break;
                case 5: size = (o.smallest_block_size << src.draw(4)) + src.draw(3) - 1; break;
                case 6: size = std::min<std::size_t>(o.largest_block_size * (1 + src.draw(24)) + src.draw(3),
                                                     3u << 20); break;
                case 7: size = o.largest_block_size * 2 + src.draw(2); break;
                default: size = 1 + src.draw(4096); break;
            }
            if (huge && src.chance(1, 3))
                size = huge_size(src);
            size = std::max<std::size_t>(size, 1);
            align = src.chance(1, 3) ? o.alignment << src.draw(7) : std::size_t(1) << src.draw(8);
            bool again = hist.little();
            if (!recent.empty() && (again || src.chance(1, 4))) {
                auto r = recent[src.draw(again ? std::min<std::size_t>(recent.size(), 3) : recent.size())];
                size = r.first;
                align = r.second;
            }
            recent.push_back({size, align});
            if (src.chance(1, 200))
                size = SIZE_MAX - src.draw(100);
            PBT_TRACE(src, "alloc(%zu,%zu)", size, align);
            std::size_t eff = std::max(size, o.smallest_block_size);
            bool oversized = eff > o.largest_block_size || align > o.alignment;
            std::size_t k = log2up(eff), cur = up.outstanding();
            up.clear_events();
            void *q = nullptr;
            bool threw2 = throws<std::bad_alloc>([&] { q = alloc(*res, size, align); });
            check_sticky();
            auto &ev = up.events();
            PBT_CHECK(ev.size() <= 1 && (ev.empty() || ev[0].alloc),
                      "unexpected upstream calls for one request");
            bool up_fail = !ev.empty() && ev[0].failed;
            PBT_CHECK(threw2 == up_fail, threw2 ? "request of %zu (align %zu) failed although upstream did not"
                                                : "request of %zu (align %zu) ignored upstream failure",
                      size, align);
            if (!oversized) {
                if (free_count[k] > 0)
                    PBT_CHECK(ev.empty(), "upstream was asked although bucket 2^%zu has a free block", k);
                else
                    PBT_CHECK(ev.size() == 1, "bucket 2^%zu is empty, but upstream was not asked", k);
                if (!ev.empty()) {
                    std::size_t n = ev[0].size >> k;
                    // (one more block may not fit below the maximum)
                    PBT_CHECK((ev[0].size >= o.min_bytes_per_chunk ||
                               ((n + 1) << k) > o.max_bytes_per_chunk) &&
                                  ev[0].size <= o.max_bytes_per_chunk,
                              "chunk of %zu bytes, limits are %zu..%zu", ev[0].size,
                              o.min_bytes_per_chunk, o.max_bytes_per_chunk);
                    PBT_CHECK(n >= o.min_blocks_per_chunk && n <= o.max_blocks_per_chunk,
                              "chunk of %zu blocks, limits are %zu..%zu", n, o.min_blocks_per_chunk,
                              o.max_blocks_per_chunk);
                    PBT_CHECK(ev[0].align >= o.alignment, "chunk aligned to %zu instead of %zu",
                              ev[0].align, o.alignment);
                    if (!up_fail)
                        free_count[k] += n;
                }
            } else if (!ev.empty()) {
                PBT_CHECK(ev[0].size >= size && ev[0].align >= align,
                          "oversized request (%zu, %zu) went upstream as (%zu, %zu)", size, align,
                          ev[0].size, ev[0].align);
                PBT_CHECK(ev[0].size == eff, "oversized request of %zu went upstream as %zu", size,
                          ev[0].size);
                if (o.cache_oversized && o.cached_size_cutoff_factor > 1 &&
                    o.cached_alignment_cutoff_factor > 1)
                    for (auto &c : cached)
                        PBT_CHECK(!(c.second.first == eff && c.second.second == align),
                                  "a cached block of exactly this size and alignment (%zu, %zu) was "
                                  "not reused", eff, align);
            }
            if (threw2) {
                PBT_CHECK(up.outstanding() == cur, "a failed request kept storage");
                src.label("upstream failure");
                continue;
            }
            uintptr_t p = reinterpret_cast<uintptr_t>(opaque(q));
            live.add(q, size, align, align);
            Info i{oversized, k, 0, 0, 0};
            if (oversized) {
                over = true;
                i.end = p + eff;
                if (ev.empty()) {
                    auto c = cached.find(p);
                    PBT_CHECK(c != cached.end(), "oversized request got a block that was neither new nor cached");
                    auto [cs, ca] = c->second;
                    PBT_CHECK(cs >= eff && ca >= align, "cached block (%zu, %zu) cannot hold request (%zu, %zu)",
                              cs, ca, eff, align);
                    PBT_CHECK(cs / eff < o.cached_size_cutoff_factor,
                              "cached block of %zu used for %zu, cutoff factor is %zu", cs, eff,
                              o.cached_size_cutoff_factor);
                    PBT_CHECK(ca / align < o.cached_alignment_cutoff_factor,
                              "cached block aligned to %zu used for %zu, cutoff factor is %zu", ca,
                              align, o.cached_alignment_cutoff_factor);
                    i.osize = cs;
                    i.oalign = ca;
                    cached.erase(c);
                    src.label("cache hit");
                } else {
                    PBT_CHECK(p == ev[0].ptr, "oversized request did not get its block");
                    i.osize = eff;
                    i.oalign = align;
                }
            } else {
                i.end = p + (std::size_t(1) << k);
                --free_count[k];
                bucket_reuse = bucket_reuse || ev.empty();
            }
            PBT_CHECK(up.contains(q, i.end - p), "block %p is not inside upstream storage", q);
            auto nx = info.upper_bound(p);
            PBT_CHECK(nx == info.end() || i.end <= nx->first, "pool blocks overlap");
            PBT_CHECK(nx == info.begin() || std::prev(nx)->second.end <= p, "pool blocks overlap");
            info[p] = i;
        } else if (w < 15) {
            release(live.nth(src.draw(live.size())));
        } else {
            PBT_TRACE(src, "move");
            auto m = std::make_unique<vecmem::pool_memory_resource>(std::move(*res));
            res = std::move(m);
        }
        check_sticky();
        live.verify_all();
    }
    if (src.coin())
        while (!live.empty())
            release(live.nth(src.draw(live.size())));
    if (!live.empty())
        src.label("destroyed with live blocks");
    res.reset();
    check_sticky();
    up.expect_balanced("pool destroyed");
    if (bucket_reuse && over)
        src.nontrivial();
}
}  // namespace harness
