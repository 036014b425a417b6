// Element types that report every lifetime error.
#pragma once
#include <cstdint>
#include <new>
#include <stdexcept>
#include <vector>

#include "pbt.hpp"

namespace pbt {

struct CtorError : std::runtime_error {
    CtorError() : std::runtime_error("constructor failed") {}
};

/// Which tracked objects are alive. Objects are identified by a number that they carry, so that types
/// that may be relocated bytewise can be followed as well.
struct Lifetimes {
    static Lifetimes &get() {
        static Lifetimes l;
        return l;
    }
    std::vector<unsigned char> alive;  // by id - 1
    int64_t n_alive = 0;
    uint64_t constructed = 0, destroyed = 0;
    int64_t throw_in = -1;  // throw from the n-th construction from here (0: the next)
    void reset() { *this = Lifetimes(); }
    uint64_t born(const void *p, std::size_t align) {
        if (reinterpret_cast<uintptr_t>(p) % align != 0)
            sticky_fail("object constructed at %p, which is not aligned to %zu", p, align);
        if (throw_in == 0) {
            throw_in = -1;
            throw CtorError();
        }
        if (throw_in > 0)
            --throw_in;
        ++constructed;
        ++n_alive;
        alive.push_back(1);
        return alive.size();
    }
    bool is_alive(uint64_t id) const { return id >= 1 && id <= alive.size() && alive[id - 1]; }
    void died(uint64_t id) {
        if (!is_alive(id)) {
            sticky_fail("destructor run on something that is not a live object");
            return;
        }
        alive[id - 1] = 0;
        --n_alive;
        ++destroyed;
    }
};

/// @tparam ADDR the object may not be moved around bytewise
template <std::size_t ALIGN, std::size_t EXTRA, bool ADDR = true>
struct alignas(ALIGN) Tracked {
    uint64_t id;
    uint64_t val;
    const void *self;
    unsigned char extra[EXTRA ? EXTRA : 1];

    Tracked() : Tracked(uint64_t(0)) {}
    explicit Tracked(uint64_t v) : id(Lifetimes::get().born(opaque_this(), ALIGN)), val(v), self(this) {
        fill();
    }
    Tracked(uint64_t a, uint64_t b) : Tracked(a * 1000003 + b) {}
    Tracked(const Tracked &o)
        : id(Lifetimes::get().born(opaque_this(), ALIGN)), val(o.check("copied from").val), self(this) {
        fill();
    }
    Tracked(Tracked &&o)
        : id(Lifetimes::get().born(opaque_this(), ALIGN)), val(o.check("moved from").val), self(this) {
        fill();
        o.val = MOVED;
        o.fill();
    }
    Tracked &operator=(const Tracked &o) {
        check("assigned to");
        val = o.check("assigned from").val;
        fill();
        return *this;
    }
    Tracked &operator=(Tracked &&o) {
        check("assigned to");
        val = o.check("assigned from").val;
        fill();
        if (this != &o) {
            o.val = MOVED;
            o.fill();
        }
        return *this;
    }
    ~Tracked() {
        check("destroyed");
        Lifetimes::get().died(id);
        id = 0;
        val = 0xdeaddeaddeaddeadull;
        asm volatile("" : : "r"(this) : "memory");
    }
    bool operator==(const Tracked &o) const { return val == o.val; }
    bool operator!=(const Tracked &o) const { return val != o.val; }
    uint64_t value() const { return check("read").val; }
    const Tracked &check(const char *what) const {
        if (!Lifetimes::get().is_alive(id))
            sticky_fail("something that is not a live object is %s", what);
        else if (ADDR && self != this)
            sticky_fail("an object that was moved bytewise is %s", what);
        else if (EXTRA && (extra[0] != static_cast<unsigned char>(val) ||
                           extra[EXTRA - 1] != static_cast<unsigned char>(val)))
            sticky_fail("a damaged object is %s", what);
        return *this;
    }
    static constexpr uint64_t MOVED = 0x6d6f7665640000ull;

private:
    const void *opaque_this() const {
        const void *p = this;
        asm volatile("" : "+r"(p) : : "memory");
        return p;
    }
    void fill() {
        if (EXTRA)
            memset(extra, static_cast<int>(val & 0xff), EXTRA);
    }
};

}  // namespace pbt
