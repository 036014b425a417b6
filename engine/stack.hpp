// Random graphs of memory resources on top of a model upstream.
#pragma once
#include <vecmem/memory/arena_memory_resource.hpp>
#include <vecmem/memory/binary_page_memory_resource.hpp>
#include <vecmem/memory/choice_memory_resource.hpp>
#include <vecmem/memory/coalescing_memory_resource.hpp>
#include <vecmem/memory/conditional_memory_resource.hpp>
#include <vecmem/memory/contiguous_memory_resource.hpp>
#include <vecmem/memory/debug_memory_resource.hpp>
#include <vecmem/memory/identity_memory_resource.hpp>
#include <vecmem/memory/instrumenting_memory_resource.hpp>
#include <vecmem/memory/pool_memory_resource.hpp>
#include <vecmem/memory/synchronized_memory_resource.hpp>
#include <vecmem/memory/terminal_memory_resource.hpp>

#include "upstream.hpp"

namespace pbt {

enum Kind {
    K_UP,
    K_IDENTITY,
    K_SYNC,
    K_DEBUG,
    K_INSTR,
    K_COND,
    K_CHOICE,
    K_COALESCE,
    K_CONTIG,
    K_ARENA,
    K_BINARY,
    K_POOL,
    K_TERMINAL,
    K_COUNT
};
inline const char *kind_name(int k) {
    static const char *n[] = {"upstream", "identity",  "synchronized", "debug", "instrumenting",
                              "conditional", "choice", "coalescing", "contiguous", "arena",
                              "binary_page", "pool", "terminal"};
    return n[k];
}
constexpr std::size_t FUNDAMENTAL = alignof(std::max_align_t);

inline vecmem::pool_memory_resource::options random_pool_options(Src &src) {
    vecmem::pool_memory_resource::options o;
    if (src.chance(1, 3))
        return o;
    std::size_t s = 4 + src.draw(5), l = s + src.draw(8);
    o.smallest_block_size = std::size_t(1) << s;
    o.largest_block_size = std::size_t(1) << l;
    o.alignment = std::size_t(1) << src.draw(s + 1);
    o.min_blocks_per_chunk = 1 + src.draw(8);
    o.max_blocks_per_chunk = o.min_blocks_per_chunk + src.draw(32);
    o.max_bytes_per_chunk = o.min_blocks_per_chunk * o.largest_block_size + src.draw(4096);
    o.min_bytes_per_chunk = src.draw(
        std::min(o.max_bytes_per_chunk, o.max_blocks_per_chunk * o.smallest_block_size) + 1);
    o.cache_oversized = src.coin();
    o.cached_size_cutoff_factor = 1 + src.draw(20);
    o.cached_alignment_cutoff_factor = 1 + src.draw(20);
    return o;
}

class Graph {
public:
    struct Node {
        int kind = 0;
        std::unique_ptr<vecmem::memory_resource> res;
        vecmem::memory_resource *ptr = nullptr;
        std::vector<int> up;      // upstream nodes
        bool can_fail = false;    // may refuse by itself
        bool forwards = false;    // every deallocation goes upstream
        bool discards = false;    // never gives anything back (contiguous)
        std::size_t pool_align = 0;
        std::size_t limit = 0;
        std::string text;
    };
    std::vector<Node> nodes;

    /// @param depth number of nodes above the upstream
    Graph(Src &src, ModelUpstream &up, int depth, bool dag = true, bool may_fail = true) {
        Node n;
        n.kind = K_UP;
        n.ptr = &up;
        n.text = "upstream";
        nodes.push_back(std::move(n));
        for (int i = 0; i < depth; ++i)
            add(src, dag, may_fail);
    }
    ~Graph() { clear(); }
    void clear() {
        while (!nodes.empty())
            nodes.pop_back();
    }
    Node &top() { return nodes.back(); }
    std::string describe() const {
        std::string t;
        for (std::size_t i = 1; i < nodes.size(); ++i) {
            t += (i > 1 ? ", " : "") + std::to_string(i) + ":" + nodes[i].text + "<-";
            for (int u : nodes[i].up)
                t += std::to_string(u) + " ";
        }
        return t;
    }
    /// The alignment that node k promises for a request with this alignment
    std::size_t promise(int k, std::size_t align) const {
        const Node &n = nodes[k];
        switch (n.kind) {
            case K_UP:
            case K_CONTIG:
                return align;
            case K_ARENA:
            case K_BINARY:
                return std::min(align, FUNDAMENTAL);
            case K_POOL: {
                std::size_t a = std::min(align, n.pool_align);
                if (align <= n.pool_align)
                    return std::min(a, promise(n.up[0], n.pool_align));
                return std::min(align, promise(n.up[0], align));
            }
            case K_TERMINAL:
                return 1;
            default: {
                std::size_t a = align;
                for (int u : n.up)
                    a = std::min(a, promise(u, align));
                return a;
            }
        }
    }
    /// May node k refuse a request even when the model upstream does not fail?
    bool can_fail(int k) const {
        const Node &n = nodes[k];
        if (n.can_fail)
            return true;
        if (n.kind == K_COALESCE) {
            for (int u : n.up)
                if (!can_fail(u))
                    return false;
            return true;
        }
        for (int u : n.up)
            if (can_fail(u))
                return true;
        return false;
    }

private:
    void add(Src &src, bool dag, bool may_fail) {
        Node n;
        auto pick_up = [&]() -> int {
            if (!dag || nodes.size() == 1 || !src.chance(1, 3))
                return static_cast<int>(nodes.size()) - 1;
            return static_cast<int>(src.draw(nodes.size()));
        };
        for (;;) {
            n.kind = 1 + src.draw(K_COUNT - 1);
            if (n.kind == K_TERMINAL) {
                n.kind = K_POOL;  // terminal resources only occur below coalescing ones
            }
            if (!may_fail && n.kind == K_CONTIG)
                n.kind = K_ARENA;
            break;
        }
        int u = pick_up();
        n.up.push_back(u);
        vecmem::memory_resource &up = *nodes[u].ptr;
        char b[200];
        snprintf(b, sizeof b, "%s", kind_name(n.kind));
        n.text = b;
        switch (n.kind) {
            case K_IDENTITY:
                n.res = std::make_unique<vecmem::identity_memory_resource>(up);
                n.forwards = true;
                break;
            case K_SYNC:
                n.res = std::make_unique<vecmem::synchronized_memory_resource>(up);
                n.forwards = true;
                break;
            case K_DEBUG:
                n.res = std::make_unique<vecmem::debug_memory_resource>(up);
                n.forwards = true;
                break;
            case K_INSTR:
                n.res = std::make_unique<vecmem::instrumenting_memory_resource>(up);
                n.forwards = true;
                break;
            case K_COND: {
                std::size_t lim = may_fail && src.coin() ? 1 + src.draw(20000) : SIZE_MAX;
                n.limit = lim;
                n.can_fail = lim != SIZE_MAX;
                n.res = std::make_unique<vecmem::conditional_memory_resource>(
                    up, [lim](std::size_t s, std::size_t) { return s <= lim; });
                snprintf(b, sizeof b, "conditional(size<=%zd)", (ssize_t)lim);
                n.text = b;
                n.forwards = true;
                break;
            }
            case K_CHOICE: {
                int u2 = static_cast<int>(src.draw(nodes.size()));
                n.up.push_back(u2);
                vecmem::memory_resource *p1 = &up, *p2 = nodes[u2].ptr;
                std::size_t lim = src.draw(5000);
                n.res = std::make_unique<vecmem::choice_memory_resource>(
                    [p1, p2, lim](std::size_t s, std::size_t) -> vecmem::memory_resource & {
                        return s <= lim ? *p1 : *p2;
                    });
                snprintf(b, sizeof b, "choice(size<=%zu)", lim);
                n.text = b;
                n.forwards = true;
                break;
            }
            case K_COALESCE: {
                std::vector<std::reference_wrapper<vecmem::memory_resource>> v;
                static vecmem::terminal_memory_resource term;
                if (src.chance(1, 3))
                    v.emplace_back(term);
                v.emplace_back(up);
                int extra = src.draw(3);
                for (int i = 0; i < extra; ++i) {
                    int u2 = static_cast<int>(src.draw(nodes.size()));
                    n.up.push_back(u2);
                    v.emplace_back(*nodes[u2].ptr);
                }
                n.res = std::make_unique<vecmem::coalescing_memory_resource>(std::move(v));
                n.forwards = true;
                break;
            }
            case K_CONTIG: {
                std::size_t sz = 1 + src.draw(1 << 16);
                snprintf(b, sizeof b, "contiguous(%zu)", sz);
                n.text = b;
                // The upstream may well refuse: fall back to something simple then
                try {
                    n.res = std::make_unique<vecmem::contiguous_memory_resource>(up, sz);
                    n.can_fail = true;
                    n.discards = true;
                } catch (const std::bad_alloc &) {
                    n.kind = K_IDENTITY;
                    n.text = "identity";
                    n.forwards = true;
                    n.res = std::make_unique<vecmem::identity_memory_resource>(up);
                }
                break;
            }
            case K_ARENA: {
                std::size_t init = src.coin() ? 20000 : 256 * (1 + src.draw(2048));
                std::size_t maxi = std::size_t(1) << 60;
                if (may_fail && src.chance(1, 4)) {
                    maxi = init + src.draw(1 << 20);
                    n.can_fail = true;
                }
                snprintf(b, sizeof b, "arena(%zu,%zu)", init, maxi);
                n.text = b;
                try {
                    n.res = std::make_unique<vecmem::arena_memory_resource>(up, init, maxi);
                } catch (const std::bad_alloc &) {
                    n.can_fail = false;
                    n.kind = K_IDENTITY;
                    n.text = "identity";
                    n.forwards = true;
                    n.res = std::make_unique<vecmem::identity_memory_resource>(up);
                }
                break;
            }
            case K_BINARY:
                n.res = std::make_unique<vecmem::binary_page_memory_resource>(up);
                break;
            case K_POOL: {
                auto o = random_pool_options(src);
                // no more than what the upstream promises
                o.alignment = promise(u, o.alignment);
                n.pool_align = o.alignment;
                snprintf(b, sizeof b, "pool(blocks %zu..%zu align %zu cache %d)",
                         o.smallest_block_size, o.largest_block_size, o.alignment,
                         (int)o.cache_oversized);
                n.text = b;
                n.res = std::make_unique<vecmem::pool_memory_resource>(up, o);
                break;
            }
        }
        n.ptr = n.res.get();
        nodes.push_back(std::move(n));
    }
};

inline std::size_t random_size(Src &src, std::size_t big = std::size_t(2) << 20) {
    switch (src.draw(8)) {
        case 0:
        case 1:
        case 2:
            return 1 + src.draw(64);
        case 3:
            return 1 + src.draw(600);
        case 4: {
            std::size_t s = std::size_t(1) << src.draw(15);
            std::size_t d = src.draw(3);
            return std::max<std::size_t>(1, s + d - 1);
        }
        case 5:
            return 1 + src.draw(20000);
        case 6:
            return 256 * (1 + src.draw(40)) + src.draw(3) - 1;
        default: {
            if (src.chance(1, 3)) {
                std::size_t s = std::size_t(1) << (14 + src.draw(8));
                std::size_t d = src.draw(3);
                return std::min(big, s + d - 1);
            }
            return 1 + src.draw(4096);
        }
    }
}
/// Sizes around and beyond what fits into 31, 32 or 36 bits
inline std::size_t huge_size(Src &src) {
    std::size_t s = std::size_t(1) << (26 + src.draw(12));
    switch (src.draw(4)) {
        case 0:
            return s + src.draw(3) - 1;
        case 1:
            return s + src.draw(600);
        case 2:
            return s + (std::size_t(1) << src.draw(26));
        default:
            return s + src.draw(s);
    }
}
inline std::size_t random_align(Src &src) {
    switch (src.draw(4)) {
        case 0:
        case 1:
            return FUNDAMENTAL;
        case 2:
            return std::size_t(1) << src.draw(5);
        default:
            return std::size_t(1) << src.draw(11);
    }
}

}  // namespace pbt
