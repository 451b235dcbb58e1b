#include "csp.hpp"
using namespace sp::labeling::finder;
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    bool complete = vp_param("COMPLETE", 0);
    bool solvable = false;
    if (complete) {
        ConstraintGraph q = p.c;
        solvable = solve_csp(&q);
        if (vp_param("SOLVED", 0)) { vp_assume(solvable); set_avail_word(p.c.nodes_availability, 0, get_set(q, n)); }
    }
    ConstraintGraph* r = find_labeling(&p.c);
    ul after = get_set(p.c, n);
    if (r) {
        vp_check(r == &p.c, "the result is another graph");
        vp_check((after & ~p.s) == 0, "a node that was not available is chosen");
        vp_check(p.self_supporting(after), "neighbouring chosen nodes are not connected by an available edge");
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
            ul m = after & p.pixel_mask(x, y);
            vp_check(vp_and(m != 0, (m & (m - 1)) == 0), "a pixel has not exactly one chosen node");
        }
        vp_observe("after", 0, after);
        if (complete) vp_check(solvable, "a labeling of an unsolvable problem is reported");
        vp_assume(after != p.s);
        vp_reach("witness");
    } else {
        if (complete) vp_check(!solvable, "no labeling is reported although the problem is solvable");
        if (!vp_param("SOLVED", 0)) vp_reach("failure");
    }
}
