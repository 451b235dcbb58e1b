#include "csp.hpp"
// From any start (solvable or not) nothing is revived.
extern "C" void vp_harness()
{
    Problem p(dims());
    ul step = vp_param("STEP", 0);
    if (step) csp_solution_iteration(&p.c, vp_param("JOBS", 1), vp_param("JOB", 0)); else solve_csp(&p.c);
    ul after = get_set(p.c, p.n);
    vp_check((after & ~p.s) == 0, "no node is made available");
    vp_observe("after", 0, after);
    vp_assume(after != p.s);
    vp_reach("witness");
}
