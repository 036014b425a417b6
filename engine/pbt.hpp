// Property-based testing engine: choice sequences, isolation, shrinking, replay.
// A harness defines the functions in namespace `harness` (bottom of this file);
// engine/main.cpp (random tier) or engine/fuzz_main.cpp (libFuzzer tier) drives them.
#pragma once
#include <cstdarg>
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <exception>
#include <functional>
#include <sstream>
#include <string>
#include <type_traits>
#include <utility>
#include <vector>

namespace pbt {

/// Thrown (by checks) when the property does not hold for the current case.
struct Fail {
    std::string msg;
};
/// Thrown to abandon a case that turned out to be outside of the domain.
struct Discard {};

constexpr std::size_t MAX_DRAWS = 1u << 16;

/// State of the running case, kept in memory shared with the parent process.
struct CaseRecord {
    volatile uint64_t case_index;
    volatile uint32_t running;
    volatile uint32_t n_draws;
    char msg[2048];
    uint64_t draws[MAX_DRAWS];
};

class Src {
public:
    // random generation
    Src(CaseRecord *rec, uint64_t seed, bool tracing);
    // replay
    Src(CaseRecord *rec, const std::vector<uint64_t> &replay, bool tracing);
    // bytes (fuzzing)
    Src(CaseRecord *rec, const uint8_t *data, std::size_t size);

    /// A choice in [0, n). All randomness of a case comes from here.
    uint64_t draw(uint64_t n);
    /// A choice in [lo, hi] (simplest: lo)
    uint64_t range(uint64_t lo, uint64_t hi) { return lo + draw(hi - lo + 1); }
    /// true with probability num/den (simplest: false)
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }
    bool coin() { return draw(2) == 1; }
    template <typename T>
    const T &pick(const std::vector<T> &v) {
        return v[draw(v.size())];
    }
    template <typename T>
    T pick(std::initializer_list<T> v) {
        return *(v.begin() + draw(v.size()));
    }
    /// Full 64 bit value
    uint64_t u64();
    /// Has the stream run out (byte driven / replay)? Ends operation loops early.
    bool exhausted() const { return m_exhausted; }

    void nontrivial() { m_nontrivial = true; }
    void label(const char *name);
    bool tracing() const { return m_tracing; }
    void trace(const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    bool is_nontrivial() const { return m_nontrivial; }
    uint64_t hash() const { return m_hash; }
    const std::string &trace_text() const { return m_trace; }
    const std::vector<int> &labels() const { return m_labels; }

private:
    uint64_t next();
    CaseRecord *m_rec;
    int m_mode;
    uint64_t m_s[4];
    const std::vector<uint64_t> *m_replay = nullptr;
    std::size_t m_pos = 0;
    const uint8_t *m_data = nullptr;
    std::size_t m_size = 0;
    bool m_exhausted = false;
    bool m_tracing = false;
    bool m_nontrivial = false;
    uint64_t m_hash = 1469598103934665603ull;
    std::string m_trace;
    std::vector<int> m_labels;
};

/// A size below `n`; in one case out of `odds`, one of up to `most` instead
inline uint64_t sized(Src &src, uint64_t n, uint64_t most, unsigned odds = 60) {
    if (src.draw(odds) < odds - 1)
        return src.draw(n);
    src.label("large size");
    switch (src.draw(8)) {
        case 0:
            return most - src.draw(3);
        case 1:
        case 2: {
            // at or next to a power of two
            uint64_t s = (uint64_t(8) << src.draw(14)) + src.draw(3) - 1;
            return s < most ? s : most;
        }
        default: {
            uint64_t s = uint64_t(16) << src.draw(8);
            return src.draw((s < most ? s : most) + 1);
        }
    }
}

/// Decides many small things. In a few cases there is much more of everything, and the details come from a generator
/// of its own then, so that they do not need a choice each.
class Details {
public:
    explicit Details(Src &src, unsigned odds = 60) : m_src(src) {
        m_big = src.draw(odds) == odds - 1;
        if (m_big) {
            m_state = 1 + src.draw(uint64_t(1) << 32);
            src.label("large case");
        }
    }
    bool big() const { return m_big; }
    uint64_t draw(uint64_t n) {
        if (!m_big)
            return m_src.draw(n);
        m_state ^= m_state << 13;
        m_state ^= m_state >> 7;
        m_state ^= m_state << 17;
        return (m_state >> 11) % n;
    }
    bool coin() { return draw(2) == 1; }
    bool chance(unsigned num, unsigned den) { return draw(den) >= den - num; }

private:
    Src &m_src;
    bool m_big;
    uint64_t m_state = 1;
};

/// The length of a history, and what it does next. In a few cases the history is long, with stretches in which it mostly
/// takes and stretches in which it mostly gives back.
class History {
public:
    History(Src &src, unsigned usual, unsigned most = 600, unsigned odds = 150) : m_src(src), m_most(most) {
        if (src.draw(odds) == odds - 1) {
            m_long = true;
            m_length = usual + static_cast<unsigned>(src.draw(most - usual)) + 1;
            src.label("long history");
        } else
            m_length = 1 + static_cast<unsigned>(src.draw(usual));
    }
    bool is_long() const { return m_long; }
    int length() const { return static_cast<int>(m_length); }
    /// One of \p n operations, of which those below \p takes take something, and the next up to \p gives give back
    unsigned next(unsigned n, unsigned takes, unsigned gives) {
        if (m_long) {
            if (m_left == 0) {
                m_left = 10 + static_cast<unsigned>(m_src.draw(m_most / 2));
                m_mode = static_cast<unsigned>(m_src.draw(4));
            }
            --m_left;
            if (m_mode != 0 && m_src.chance(7, 8))
                return m_mode == 3 ? takes + static_cast<unsigned>(m_src.draw(gives - takes))
                                   : static_cast<unsigned>(m_src.draw(takes));
        }
        return static_cast<unsigned>(m_src.draw(n));
    }
    /// Whether to do with something small, so that there can be many
    bool little() { return m_long && m_src.chance(7, 8); }

private:
    Src &m_src;
    unsigned m_most;
    bool m_long = false;
    unsigned m_length = 1, m_left = 0, m_mode = 0;
};

#define PBT_TRACE(src, ...)            \
    do {                               \
        if ((src).tracing())           \
            (src).trace(__VA_ARGS__);  \
    } while (0)

/// Is the thorough tier running?
bool thorough();

[[noreturn]] void fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
/// Record a failure in a context that must not throw; reported at the end of the case.
void sticky_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
bool has_sticky();
/// Throw if a sticky failure was recorded
void check_sticky();

#define PBT_CHECK(cond, ...)          \
    do {                              \
        if (!(cond))                  \
            ::pbt::fail(__VA_ARGS__); \
    } while (0)
#define PBT_REQUIRE(cond)                                                  \
    do {                                                                   \
        if (!(cond))                                                       \
            ::pbt::fail("%s:%d: not true: %s", __FILE__, __LINE__, #cond); \
    } while (0)

/// Expect that `f` throws exactly something catchable as E. Returns true if so.
template <typename E, typename F>
bool throws(F &&f) {
    try {
        f();
    } catch (const Fail &) {
        throw;
    } catch (const E &) {
        return true;
    }
    return false;
}

}  // namespace pbt

/// To be defined by each check.
namespace harness {
extern const char *const id;    // property
extern const char *const rule;  // when a case counts as non-trivial
/// Number of cases for the quick and thorough tier
extern const uint64_t quick_cases;
extern const uint64_t thorough_cases;
void run(pbt::Src &src);
}  // namespace harness
