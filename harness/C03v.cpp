#include "common.hpp"
using namespace sp::indexing;
// The value accessors read the elements the index functions name; every element is a distinct arbitrary value.
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g(sym_image("left", n.w, n.h, ~0ul), sym_image("right", n.w, n.h, ~0ul), n.d, 1, 1);
    for (ul i = 0; i < g.reparametrization.size(); ++i) g.reparametrization[i] = vp_raw_double("rep", i);
    bool ok = true, okl = true, okr = true;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        okl = vp_and(okl, pixel_value(&g.left, {x, y}) == g.left.data[x + y * n.w]);
        okr = vp_and(okr, pixel_value(&g.right, {x, y}) == g.right.data[x + y * n.w]);
        for (ul d = 0; d < n.d; ++d) for (ul i = 0; i < 4; ++i) {
            Node a{{x, y}, d};
            ul k = reparametrization_index_fast(&g, a, i);
            vp_check(k < g.reparametrization.size(), "position in range");
            double want = g.reparametrization[k];
            vp_assume(want == want);
            ok = vp_and(ok, reparametrization_value_fast(&g, a, i) == want);
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            ok = vp_and(ok, reparametrization_value(&g, a, {nx, ny}) == want);
            for (ul nd = 0; nd < n.d; ++nd) ok = vp_and(ok, reparametrization_value_slow(&g, {a, {{nx, ny}, nd}}) == want);
        }
    }
    vp_check(okl, "left pixel values"); vp_check(okr, "right pixel values"); vp_check(ok, "reparametrization values agree for all names");
    vp_reach("witness");
}
