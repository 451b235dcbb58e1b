#include "csp.hpp"
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    bool r = solve_csp(&p.c);
    ul after = get_set(p.c, n);
    vp_check(p.self_supporting(after), "every remaining node has an available edge to every neighbour");
    vp_check(vp_or(after == 0, p.every_pixel(after)), "either every pixel keeps a node or none does");
    vp_check(r == (after != 0), "the verdict is true exactly when a node remains");
    vp_observe("after", 0, after); vp_observe("verdict", 0, r);
    if (r) { vp_assume(after != p.s); vp_reach("witness"); } else { vp_assume(p.every_pixel(p.s)); vp_reach("unsolvable"); }
}
