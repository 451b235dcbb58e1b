#include "csp.hpp"
#include <stdexcept>
using namespace sp::labeling::finder;
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    bool unique = true;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        ul m = p.s & p.pixel_mask(x, y);
        unique = vp_and(unique, vp_and(m != 0, (m & (m - 1)) == 0));
    }
    bool thrown = false;
    try {
        Image r = build_disparity_map(&p.c);
        vp_check(unique, "a map is built although some pixel has no unique label");
        vp_check(vp_and(r.width == n.w, r.height == n.h), "the map has another size");
        vp_check(r.max_value == n.d, "the maximal intensity is not the number of levels");
        vp_check(r.data.size() == n.w * n.h, "the map has another number of pixels");
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
            ul v = r.data[x + n.w * y];
            vp_check(v < n.d, "an intensity is no disparity");
            vp_check(vp_imp(v < n.d, in_set(n, p.s, x, y, v)), "an intensity is not the label of its pixel");
            vp_observe("map", x + n.w * y, v);
        }
        vp_reach("witness");
    } catch (std::logic_error&) {
        thrown = true;
    }
    if (thrown) {
        vp_check(!unique, "an error is raised although every pixel has exactly one label");
        vp_check(get_set(p.c, n) == p.s, "the problem is changed");
        vp_reach("error");
    }
}
