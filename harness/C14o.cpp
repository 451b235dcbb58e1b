// solve_csp as compiled with OpenMP for a team of THREADS (the runtime runs the team's threads one after another)
#include "csp.hpp"
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    bool r = solve_csp(&p.c);
    ul after = get_set(p.c, n);
    vp_check(p.self_supporting(after), "every remaining node has an available edge to every neighbour");
    vp_check(vp_or(after == 0, p.every_pixel(after)), "either every pixel keeps a node or none does");
    vp_check(r == (after != 0), "the verdict is true exactly when a node remains");
    ul s = sym_set("supported", n);
    vp_assume((s & ~p.s) == 0);
    vp_assume(p.self_supporting(s));
    vp_check((s & ~after) == 0, "a supported node is lost");
    vp_check((after & ~p.s) == 0, "a node is revived");
    vp_observe("after", 0, after); vp_observe("verdict", 0, r);
    vp_assume(after != p.s);
    if (r) vp_reach("witness"); else vp_reach("unsolvable");
}
