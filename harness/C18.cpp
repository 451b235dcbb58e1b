#include "csp.hpp"
using namespace sp::labeling::finder;
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul px = vp_param("X", 0), py = vp_param("Y", 0);
    ConstraintGraph* r = choose_best_node(&p.c, {px, py});
    ul after = get_set(p.c, n), here = p.pixel_mask(px, py);
    vp_check((after & ~here) == (p.s & ~here), "a node of another pixel is changed");
    vp_check((r == &p.c) == ((p.s & here) != 0), "success is reported exactly if the pixel had an available node");
    vp_check(vp_or(r == nullptr, r == &p.c), "the result is neither the given graph nor null");
    vp_check(vp_imp((p.s & here) == 0, (after & here) == 0), "a node appears in a pixel without available nodes");
    for (ul d = 0; d < n.d; ++d) {
        if (!spec_node(n, px, py, d)) continue;
        double v = spec_node_penalty(p.g, px, py, d);
        bool best = in_set(n, p.s, px, py, d);
        for (ul e = 0; e < n.d; ++e) {
            if (e == d || !spec_node(n, px, py, e)) continue;
            double u = spec_node_penalty(p.g, px, py, e);
            bool beaten = vp_and(in_set(n, p.s, px, py, e), e < d ? u <= v : u < v);
            best = vp_and(best, !beaten);
        }
        vp_check(in_set(n, after, px, py, d) == best, "the only node kept is the cheapest available one of least disparity");
    }
    vp_observe("after", 0, after);
    if (r) { vp_assume(after != p.s); vp_reach("witness"); } else vp_reach("no node");
}
