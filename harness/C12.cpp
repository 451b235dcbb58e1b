#include "csp.hpp"
// An arbitrary set of mutually supporting nodes inside an arbitrary start availability survives pruning.
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul S = sym_set("keep", n);
    vp_assume((S & ~p.s) == 0);
    vp_assume(p.every_pixel(S));
    vp_assume(p.self_supporting(S));
    ul step = vp_param("STEP", 0);
    if (step) {
        ul jobs = vp_param("JOBS", 1), job = vp_param("JOB", 0);
        csp_solution_iteration(&p.c, jobs, job);
    } else {
        bool r = solve_csp(&p.c);
        vp_check(r, "a problem with a supporting set is solvable");
    }
    ul after = get_set(p.c, n);
    vp_check((S & ~after) == 0, "no node of a mutually supporting set is removed");
    vp_check((after & ~p.s) == 0, "no node is made available");
    vp_observe("after", 0, after);
    vp_assume(after != p.s);
    vp_reach("witness");
}
