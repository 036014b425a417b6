// Generated copy/setup/fill histories with device memory that only the raw operations may touch, raw operations that
// run late, and a judge for their directions and for the life time of the memory that they refer to.
// check: lib=memory,utils
// assume: raw operations run in the order in which they were issued, and containers live until operations on them were waited for
#include "copyworld.hpp"

using namespace pbt;

namespace harness {
const char *const id = "P05";
const char *const rule =
    "histories of 2..11 operations of all kinds over 1D, jagged and SoA containers, each of them in host memory or in "
    "device memory that is protected by the MMU, with each raw operation delayed up to the next wait; non-trivial: at "
    "least one raw operation ran after a later one had been issued, and one container was on the device";
const uint64_t quick_cases = 350000;
const uint64_t thorough_cases = 4200000;

void run(Src &src) {
    cw::World w(src, true, cw::COPY | cw::TO | cw::SIZES | cw::SETUP | cw::FILL);
    switch (src.draw(3)) {
        case 0:
            cw::any_1d(w);
            break;
        case 1:
            cw::any_jagged(w);
            break;
        default:
            cw::any_soa(w);
    }
}
}  // namespace harness
