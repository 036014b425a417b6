#include "pbt.hpp"

#include <cstdlib>

namespace pbt {

int label_index(const char *name);  // in driver
CaseRecord *current_record();

static std::string g_sticky;
static bool g_has_sticky = false;

static uint64_t splitmix(uint64_t &x) {
    uint64_t z = (x += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}
static inline uint64_t rotl(uint64_t x, int k) {
    return (x << k) | (x >> (64 - k));
}

Src::Src(CaseRecord *rec, uint64_t seed, bool tracing)
    : m_rec(rec), m_mode(0), m_tracing(tracing) {
    for (auto &s : m_s)
        s = splitmix(seed);
    rec->n_draws = 0;
    rec->msg[0] = 0;
}
Src::Src(CaseRecord *rec, const std::vector<uint64_t> &replay, bool tracing)
    : m_rec(rec), m_mode(1), m_replay(&replay), m_tracing(tracing) {
    rec->n_draws = 0;
    rec->msg[0] = 0;
}
Src::Src(CaseRecord *rec, const uint8_t *data, std::size_t size)
    : m_rec(rec), m_mode(2), m_data(data), m_size(size) {
    rec->n_draws = 0;
    rec->msg[0] = 0;
}

uint64_t Src::next() {
    uint64_t r = rotl(m_s[1] * 5, 7) * 9, t = m_s[1] << 17;
    m_s[2] ^= m_s[0];
    m_s[3] ^= m_s[1];
    m_s[1] ^= m_s[2];
    m_s[0] ^= m_s[3];
    m_s[2] ^= t;
    m_s[3] = rotl(m_s[3], 45);
    return r;
}

uint64_t Src::draw(uint64_t n) {
    uint64_t v = 0;
    if (m_mode == 0) {
        v = next();
        if (n != 0)
            v = static_cast<uint64_t>((static_cast<unsigned __int128>(v) * n) >> 64);
    } else if (m_mode == 1) {
        if (m_pos < m_replay->size()) {
            v = (*m_replay)[m_pos++];
            if (n != 0)
                v %= n;
        } else {
            m_exhausted = true;
        }
    } else {
        std::size_t bytes = (n == 0 || n > 65536) ? 8 : (n > 256 ? 2 : (n > 1 ? 1 : 0));
        if (m_pos + bytes <= m_size) {
            for (std::size_t i = 0; i < bytes; ++i)
                v |= static_cast<uint64_t>(m_data[m_pos + i]) << (8 * i);
            m_pos += bytes;
            if (n != 0)
                v %= n;
        } else {
            m_exhausted = true;
        }
    }
    uint32_t k = m_rec->n_draws;
    if (k < MAX_DRAWS) {
        m_rec->draws[k] = v;
        m_rec->n_draws = k + 1;
    } else {
        m_exhausted = true;
        v = 0;
    }
    m_hash = (m_hash ^ v) * 1099511628211ull;
    m_hash ^= m_hash >> 29;
    return v;
}
uint64_t Src::u64() {
    return draw(0);
}

void Src::label(const char *name) {
    int i = label_index(name);
    for (int j : m_labels)
        if (j == i)
            return;
    m_labels.push_back(i);
}
void Src::trace(const char *fmt, ...) {
    if (!m_tracing || m_trace.size() > 6000)
        return;
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (!m_trace.empty())
        m_trace += "; ";
    m_trace += buf;
}

void fail(const char *fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    // Keep the message even if the exception cannot propagate (noexcept code).
    CaseRecord *r = current_record();
    if (r && r->msg[0] == 0)
        snprintf(r->msg, sizeof r->msg, "%s", buf);
    throw Fail{buf};
}
void sticky_fail(const char *fmt, ...) {
    char buf[1500];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    if (!g_has_sticky) {
        g_has_sticky = true;
        g_sticky = buf;
        CaseRecord *r = current_record();
        if (r && r->msg[0] == 0)
            snprintf(r->msg, sizeof r->msg, "%s", buf);
    }
}
bool has_sticky() {
    return g_has_sticky;
}
void reset_sticky() {
    g_has_sticky = false;
    g_sticky.clear();
}
void check_sticky() {
    if (g_has_sticky)
        throw Fail{g_sticky};
}

}  // namespace pbt
