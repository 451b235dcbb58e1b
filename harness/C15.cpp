#include "csp.hpp"
// Termination (loop bounds are obligations of the engine), progress of a sweep, idempotence.
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    if (vp_param("STEP", 0)) {
        bool changed = csp_solution_iteration(&p.c, vp_param("JOBS", 1), vp_param("JOB", 0));
        ul after = get_set(p.c, n);
        vp_check((after & ~p.s) == 0, "a sweep makes no node available");
        vp_check(vp_imp(changed, after != p.s), "a sweep that reports a change removes a node");
        vp_observe("after", 0, after); vp_observe("changed", 0, changed);
        if (changed) vp_reach("witness"); else vp_reach("no change");
        return;
    }
    bool r = solve_csp(&p.c);
    ul after = get_set(p.c, n);
    bool r2 = solve_csp(&p.c);
    vp_check(r2 == r, "solving again gives the same verdict");
    vp_check(get_set(p.c, n) == after, "solving again changes nothing");
    vp_observe("after", 0, after);
    vp_assume(after != p.s);
    if (r) vp_reach("witness"); else vp_reach("unsolvable");
}
