// Generated copy histories over jagged containers of all layouts against byte models of all containers and of all memory.
// check: lib=memory,utils
// assume: element types are trivially copyable, source and target do not overlap, the target has at most as many rows as the source, and the sizes of the rows of a resizable view lie behind each other
#include "copyworld.hpp"
#include "hugecopy.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P02";
const char *const rule =
    "histories of 2..11 operations (copy, copy into a vector of vectors, create a buffer, get and set sizes, write, create, destroy) over host jagged vectors, fixed and resizable buffers, and views with adjacent, gapped or permuted rows; non-trivial: a copy with at least two non-empty rows, two buffers created, or a refused copy; 1 case in 16: rows at untouchable addresses, up to 2^38 bytes each, with a recording backend";
const uint64_t quick_cases = 1000000;
const uint64_t thorough_cases = 12000000;

void run(Src &src) {
    if (src.draw(16) == 1)
        return hc::any_copy(src, hc::JAGGED);
    cw::World w(src, false, cw::COPY | cw::TO | cw::SIZES);
    cw::any_jagged(w);
}
}  // namespace harness
