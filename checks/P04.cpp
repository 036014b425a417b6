// Generated histories of setup and memset (with copies in between) over all kinds of containers, against byte models of
// all containers and of all memory.
// check: lib=memory,utils
// assume: the sizes of the rows of a resizable jagged view lie behind each other
#include "copyworld.hpp"
#include "hugecopy.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P04";
const char *const rule =
    "histories of 2..11 operations (setup, memset, copy, write, create, destroy) over 1D, jagged and SoA containers in "
    "host vectors, fixed and resizable buffers, and views; non-trivial: two or more setup or memset calls; 1 case in 16: containers at untouchable addresses, up to 2^40 bytes, with a recording backend";
const uint64_t quick_cases = 900000;
const uint64_t thorough_cases = 10800000;

void run(Src &src) {
    switch (src.draw(48)) {
        case 1:
            return hc::any_fill(src, hc::ONE_D);
        case 2:
            return hc::any_fill(src, hc::JAGGED);
        case 3:
            return hc::any_soa(src, true);
        default:
            break;
    }
    cw::World w(src, false, cw::SETUP | cw::FILL | (src.coin() ? cw::COPY : 0));
    switch (src.draw(3)) {
        case 0:
            return cw::any_1d(w);
        case 1:
            return cw::any_jagged(w);
        default:
            return cw::any_soa(w);
    }
}
}  // namespace harness
