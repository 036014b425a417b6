// Unique pointers: one block, each element constructed and destroyed once, exceptions included.
// check: lib=memory,utils
// assume: bounded array types (T[N]) are not used: std::unique_ptr cannot hold them
#include <vecmem/memory/unique_ptr.hpp>

#include "stack.hpp"
#include "tracked.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P26";
const char *const rule =
    "random histories of making, moving, resetting, swapping and releasing-by-destruction of unique "
    "object, array and raw pointers of element types with alignments 1..256 over one or two "
    "resources, with throwing constructors, upstream failures and impossible counts; non-trivial: at "
    "least two pointers made and one of a move, a failure or an over-aligned type";
const uint64_t quick_cases = 1500000;
const uint64_t thorough_cases = 18000000;

namespace {
struct Byte {
    unsigned char b;
};
struct alignas(32) Raw32 {
    uint64_t v[4];
};
struct alignas(256) Raw256 {
    unsigned char v[512];
};
struct Odd {
    unsigned char v[7];
};

struct State {
    Src &src;
    std::vector<std::unique_ptr<ModelUpstream>> ups;
    int made = 0;
    bool special = false;
    explicit State(Src &s) : src(s) {
        for (int i = 0; i < 2; ++i) {
            ups.push_back(std::make_unique<ModelUpstream>(&s, i, ModelUpstream::Place::Separated));
            ups.back()->max_request = 1 << 22;
        }
    }
    std::size_t blocks() const { return ups[0]->live().size() + ups[1]->live().size(); }
    std::size_t calls() const { return ups[0]->alloc_calls() + ups[1]->alloc_calls(); }
};

/// What a pointer slot should hold
struct Want {
    bool set = false;
    int up = 0;
    std::vector<uint64_t> vals;
    uintptr_t addr = 0;
    std::size_t count = 0;  // raw
};

void check_block(State &st, const Want &w, const void *p, std::size_t bytes, std::size_t align) {
    uintptr_t a = reinterpret_cast<uintptr_t>(p);
    PBT_CHECK(st.ups[w.up]->contains(p, bytes), "%zu bytes at %p are not inside one block of the resource", bytes, p);
    PBT_CHECK(a % align == 0, "pointer %p is not aligned to %zu", p, align);
}

template <typename T>
void tracked(State &st) {
    Src &src = st.src;
    auto &life = Lifetimes::get();
    using Obj = vecmem::unique_obj_ptr<T>;
    using Arr = vecmem::unique_obj_ptr<T[]>;
    constexpr int N = 3;
    std::vector<Obj> objs(N);
    std::vector<Arr> arrs(N);
    std::vector<Want> wo(N), wa(N);
    if (alignof(T) > FUNDAMENTAL)
        st.special = true;
    auto check = [&] {
        check_sticky();
        std::size_t n = 0, blocks = 0;
        for (int i = 0; i < N; ++i) {
            PBT_CHECK((objs[i].get() != nullptr) == wo[i].set, "object pointer %d is %s", i,
                      objs[i] ? "set" : "not set");
            if (wo[i].set) {
                check_block(st, wo[i], objs[i].get(), sizeof(T), alignof(T));
                PBT_CHECK(objs[i]->value() == wo[i].vals[0], "value of object %d changed", i);
                ++n;
                ++blocks;
            }
            bool has = wa[i].set && !wa[i].vals.empty();
            PBT_CHECK((arrs[i].get() != nullptr) == has, "array pointer %d is %s", i, arrs[i] ? "set" : "not set");
            if (has) {
                check_block(st, wa[i], arrs[i].get(), wa[i].vals.size() * sizeof(T), alignof(T));
                for (std::size_t k = 0; k < wa[i].vals.size(); ++k)
                    PBT_CHECK(arrs[i][k].value() == wa[i].vals[k], "array element %zu changed", k);
                n += wa[i].vals.size();
                ++blocks;
            }
        }
        check_sticky();
        PBT_CHECK(life.n_alive == (int64_t)n, "%ld objects are alive instead of %zu", (long)life.n_alive, n);
        PBT_CHECK(st.blocks() == blocks, "%zu blocks are outstanding instead of %zu", st.blocks(), blocks);
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 20, 600, 150));
    for (int op = 0; op < nops; ++op) {
        int i = src.draw(N), j = src.draw(N), u = src.draw(2);
        auto &up = *st.ups[u];
        up.fail_all = src.chance(1, 10);
        switch (src.draw(10)) {
            case 0:
            case 1: {
                uint64_t a = src.draw(1000), b = src.draw(1000);
                int args = src.draw(3);
                life.throw_in = src.chance(1, 6) ? 0 : -1;
                bool cthrow = life.throw_in == 0;
                PBT_TRACE(src, "make obj%s%s", up.fail_all ? " (no memory)" : "", cthrow ? " (ctor throws)" : "");
                try {
                    std::size_t calls = st.calls();
                    Obj p = args == 0   ? vecmem::make_unique_obj<T>(up)
                            : args == 1 ? vecmem::make_unique_obj<T>(up, a)
                                        : vecmem::make_unique_obj<T>(up, a, b);
                    PBT_CHECK(st.calls() == calls + 1, "not exactly one block was requested");
                    PBT_CHECK(!up.fail_all && !cthrow, "a failure was swallowed");
                    wo[i] = Want{true, u, {args == 0 ? 0 : args == 1 ? a : a * 1000003 + b}, 0, 0};
                    objs[i] = std::move(p);
                    PBT_CHECK(!p, "moved-from pointer is not empty");
                    ++st.made;
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all, "bad_alloc without reason");
                    st.special = true;
                } catch (const CtorError &) {
                    PBT_CHECK(cthrow, "constructor error without reason");
                    st.special = true;
                    src.label("ctor throws");
                }
                life.throw_in = -1;
                break;
            }
            case 2:
            case 3: {
                std::size_t n = pbt::sized(src, 12, 3000, 200);
                bool huge = src.chance(1, 12);
                if (huge) {
                    // more elements than fit into the address space
                    n = SIZE_MAX / sizeof(T) + 1 + src.draw(3);
                    if (src.coin())
                        n = SIZE_MAX - src.draw(3);
                    if (src.coin())
                        n = SIZE_MAX / 2 + src.draw(3);
                }
                int64_t at = src.chance(1, 4) && !huge && n > 0 ? (int64_t)src.draw(n) : -1;
                life.throw_in = at;
                PBT_TRACE(src, "make array %zu%s throw at %ld", n, up.fail_all ? " (no memory)" : "", (long)at);
                try {
                    std::size_t calls = st.calls();
                    Arr p = vecmem::make_unique_obj<T[]>(up, n);
                    PBT_CHECK(!huge, "an array of %zu elements of %zu bytes was made", n, sizeof(T));
                    PBT_CHECK(st.calls() <= calls + 1, "more than one block was requested");
                    PBT_CHECK((n == 0 || !up.fail_all) && at < 0, "a failure was swallowed");
                    wa[i] = Want{true, u, std::vector<uint64_t>(n, 0), 0, 0};
                    // give the elements values
                    uint64_t first = src.draw(1000);
                    for (std::size_t k = 0; k < n; ++k)
                        p[k].val = wa[i].vals[k] = 0x100 * (1 + (first + k * 7) % 1000);
                    if (n > 0)
                        for (std::size_t k = 0; k < n; ++k)
                            memset(p[k].extra, 0, sizeof p[k].extra);
                    arrs[i] = std::move(p);
                    ++st.made;
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all || huge, "bad_alloc without reason");
                    st.special = true;
                    if (huge)
                        src.label("impossible count");
                } catch (const CtorError &) {
                    PBT_CHECK(at >= 0, "constructor error without reason");
                    st.special = true;
                    src.label("ctor throws");
                }
                life.throw_in = -1;
                break;
            }
            case 4:
                PBT_TRACE(src, "move obj %d<-%d", i, j);
                if (i != j) {
                    objs[i] = std::move(objs[j]);
                    wo[i] = wo[j];
                    wo[j] = Want();
                    st.special = true;
                }
                break;
            case 5:
                PBT_TRACE(src, "move array %d<-%d", i, j);
                if (i != j) {
                    arrs[i] = std::move(arrs[j]);
                    wa[i] = wa[j];
                    wa[j] = Want();
                    st.special = true;
                }
                break;
            case 6:
                PBT_TRACE(src, "reset obj %d", i);
                if (src.coin())
                    objs[i].reset();
                else
                    objs[i] = nullptr;
                wo[i] = Want();
                break;
            case 7:
                PBT_TRACE(src, "reset array %d", i);
                if (src.coin())
                    arrs[i].reset();
                else
                    arrs[i] = nullptr;
                wa[i] = Want();
                break;
            case 8:
                PBT_TRACE(src, "swap %d %d", i, j);
                std::swap(objs[i], objs[j]);
                std::swap(wo[i], wo[j]);
                arrs[i].swap(arrs[j]);
                std::swap(wa[i], wa[j]);
                break;
            default: {
                PBT_TRACE(src, "move construct %d", i);
                Obj o(std::move(objs[i]));
                Arr a(std::move(arrs[i]));
                PBT_CHECK(!objs[i] && !arrs[i], "moved-from pointer is not empty");
                if (src.coin()) {
                    objs[i] = std::move(o);
                    arrs[i] = std::move(a);
                } else {
                    wo[i] = Want();
                    wa[i] = Want();
                }
            }
        }
        up.fail_all = false;
        check();
    }
    objs.clear();
    arrs.clear();
    check_sticky();
    PBT_CHECK(life.n_alive == 0, "%ld objects were never destroyed", (long)life.n_alive);
}

template <typename T>
void raw(State &st) {
    Src &src = st.src;
    using One = vecmem::unique_alloc_ptr<T>;
    using Arr = vecmem::unique_alloc_ptr<T[]>;
    constexpr int N = 3;
    std::vector<One> ones(N);
    std::vector<Arr> arrs(N);
    struct W {
        bool set = false;
        int up = 0;
        std::vector<unsigned char> bytes;
    };
    std::vector<W> wo(N), wa(N);
    if (alignof(T) > FUNDAMENTAL)
        st.special = true;
    int copies = 0;
    auto copier = [&](auto *to, const auto *from, std::size_t n) {
        ++copies;
        memcpy(static_cast<void *>(to), static_cast<const void *>(from), n);
    };
    auto check = [&] {
        check_sticky();
        std::size_t blocks = 0;
        for (int i = 0; i < N; ++i) {
            for (int k = 0; k < 2; ++k) {
                W &w = k ? wa[i] : wo[i];
                const void *p = k ? (const void *)arrs[i].get() : (const void *)ones[i].get();
                bool has = w.set && !w.bytes.empty();
                PBT_CHECK((p != nullptr) == has, "pointer is %s", p ? "set" : "not set");
                if (!has)
                    continue;
                Want ww;
                ww.up = w.up;
                check_block(st, ww, p, w.bytes.size(), alignof(T));
                PBT_CHECK(memcmp(p, w.bytes.data(), w.bytes.size()) == 0, "contents changed");
                ++blocks;
            }
        }
        PBT_CHECK(st.blocks() == blocks, "%zu blocks are outstanding instead of %zu", st.blocks(), blocks);
    };
    int nops = 1 + static_cast<int>(pbt::sized(src, 20, 600, 150));
    for (int op = 0; op < nops; ++op) {
        int i = src.draw(N), j = src.draw(N), u = src.draw(2);
        auto &up = *st.ups[u];
        up.fail_all = src.chance(1, 10);
        switch (src.draw(8)) {
            case 0: {
                bool copy = src.coin();
                T from;
                memset(&from, 1 + src.draw(250), sizeof from);
                PBT_TRACE(src, "make one copy %d", copy);
                try {
                    copies = 0;
                    One p = copy ? vecmem::make_unique_alloc<T>(up, static_cast<const T *>(&from), copier)
                                 : vecmem::make_unique_alloc<T>(up);
                    PBT_CHECK(!up.fail_all, "a failure was swallowed");
                    PBT_CHECK(copies == (copy ? 1 : 0), "copy function called %d times", copies);
                    wo[i].set = true;
                    wo[i].up = u;
                    wo[i].bytes.resize(sizeof(T));
                    if (!copy)  // nothing is constructed: the block is as the resource gave it
                        memset(wo[i].bytes.data(), 0xa5, sizeof(T));
                    else
                        memcpy(wo[i].bytes.data(), &from, sizeof(T));
                    ones[i] = std::move(p);
                    ++st.made;
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all, "bad_alloc without reason");
                    st.special = true;
                }
                break;
            }
            case 1:
            case 2: {
                bool copy = src.coin();
                std::size_t n = pbt::sized(src, 20, 5000, 200);
                bool huge = sizeof(T) > 1 && src.chance(1, 12);
                if (huge)
                    n = SIZE_MAX / sizeof(T) + 1 + src.draw(3);
                std::vector<T> from(huge ? 1 : n);
                if (!from.empty()) {
                    auto *raw = reinterpret_cast<unsigned char *>(from.data());
                    uint64_t first = src.draw(250);
                    for (std::size_t k = 0; k < from.size() * sizeof(T); ++k)
                        raw[k] = static_cast<unsigned char>(1 + (first + k * 7) % 251);
                }
                PBT_TRACE(src, "make array %zu copy %d", n, copy);
                try {
                    copies = 0;
                    Arr p = copy && !huge
                                ? vecmem::make_unique_alloc<T[]>(up, n, static_cast<const T *>(from.data()), copier)
                                : vecmem::make_unique_alloc<T[]>(up, n);
                    PBT_CHECK(!huge, "an array of %zu elements of %zu bytes was made", n, sizeof(T));
                    PBT_CHECK(n == 0 || !up.fail_all, "a failure was swallowed");
                    wa[i].set = true;
                    wa[i].up = u;
                    wa[i].bytes.assign(n * sizeof(T), 0xa5);
                    if (copy && n > 0)
                        memcpy(wa[i].bytes.data(), from.data(), n * sizeof(T));
                    else if (n > 0)
                        memset(p.get(), 0xa5, n * sizeof(T));
                    arrs[i] = std::move(p);
                    ++st.made;
                } catch (const std::bad_alloc &) {
                    PBT_CHECK(up.fail_all || huge, "bad_alloc without reason");
                    st.special = true;
                }
                break;
            }
            case 3:
                if (i != j) {
                    PBT_TRACE(src, "move %d<-%d", i, j);
                    ones[i] = std::move(ones[j]);
                    wo[i] = wo[j];
                    wo[j] = W();
                    arrs[i] = std::move(arrs[j]);
                    wa[i] = wa[j];
                    wa[j] = W();
                    st.special = true;
                }
                break;
            case 4:
                PBT_TRACE(src, "reset one %d", i);
                ones[i].reset();
                wo[i] = W();
                break;
            case 5:
                PBT_TRACE(src, "reset array %d", i);
                arrs[i] = nullptr;
                wa[i] = W();
                break;
            case 6:
                PBT_TRACE(src, "swap %d %d", i, j);
                std::swap(ones[i], ones[j]);
                std::swap(wo[i], wo[j]);
                arrs[i].swap(arrs[j]);
                std::swap(wa[i], wa[j]);
                break;
            default:
                // write
                if (wa[i].set && !wa[i].bytes.empty()) {
                    std::size_t k = src.draw(wa[i].bytes.size());
                    reinterpret_cast<unsigned char *>(arrs[i].get())[k] = wa[i].bytes[k] = src.draw(256);
                }
        }
        up.fail_all = false;
        check();
    }
}
}  // namespace

void run(Src &src) {
    State st(src);
    Lifetimes::get().reset();
    switch (src.draw(8)) {
        case 0:
            tracked<Tracked<8, 0>>(st);
            break;
        case 1:
            tracked<Tracked<16, 3>>(st);
            break;
        case 2:
            tracked<Tracked<64, 100>>(st);
            break;
        case 3:
            tracked<Tracked<32, 1>>(st);
            break;
        case 4:
            raw<int>(st);
            break;
        case 5:
            raw<Raw32>(st);
            break;
        case 6:
            raw<Raw256>(st);
            break;
        default:
            if (src.coin())
                raw<Byte>(st);
            else
                raw<Odd>(st);
    }
    check_sticky();
    for (auto &u : st.ups)
        u->expect_balanced("all pointers destroyed");
    if (st.made >= 2 && st.special)
        src.nontrivial();
}
}  // namespace harness
