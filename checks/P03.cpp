// Generated copy histories over SoA containers of 10 schemas against byte models of all containers and of all memory.
// check: lib=memory,utils
// assume: source and target do not overlap; containers with jagged vectors are copied to ones of at most the same size
#include "copyworld.hpp"
#include "hugecopy.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P03";
const char *const rule =
    "histories of 2..11 operations (copy, copy into a host container, read the size, write, create, destroy) over host containers, fixed and resizable buffers of 10 schemas; non-trivial: a copy of at least two elements (or of only scalars), or a refused copy; 1 case in 16: variables at untouchable addresses, up to 2^38 bytes each, with a recording backend";
const uint64_t quick_cases = 700000;
const uint64_t thorough_cases = 8400000;

void run(Src &src) {
    if (src.draw(16) == 1)
        return hc::any_soa(src, false);
    cw::World w(src, false, cw::COPY | cw::SIZES);
    cw::any_soa(w);
}
}  // namespace harness
