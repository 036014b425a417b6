// Generated copy histories over 1D containers against byte models of all containers and of all memory.
// check: lib=memory,utils
// assume: element types are trivially copyable and the source and target do not overlap
#include "copyworld.hpp"
#include "hugecopy.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P01";
const char *const rule =
    "histories of 2..11 operations (copy, copy into a vector, create a buffer, read the size, write, create, destroy) over host vectors, fixed and resizable buffers and views with slack around them; non-trivial: at least two copies, two buffers created, or a refused copy; 1 case in 16: elements at untouchable addresses, up to 2^38 bytes, with a recording backend";
const uint64_t quick_cases = 2000000;
const uint64_t thorough_cases = 24000000;

void run(Src &src) {
    if (src.draw(16) == 1)
        return hc::any_copy(src, hc::ONE_D);
    cw::World w(src, false, cw::COPY | cw::TO | cw::SIZES);
    cw::any_1d(w);
}
}  // namespace harness
