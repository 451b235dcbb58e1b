// Splits of a sweep into jobs, whatever their order.
#include "csp.hpp"
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul jobs = vp_param("JOBS", 2), order = vp_param("ORDER", 0);
    if (vp_param("QUIET", 0)) {
        // a sweep in which no job reports a change ends at the fixed point and has changed nothing
        bool any = false;
        for (ul j = 0; j < jobs; ++j) any |= csp_solution_iteration(&p.c, jobs, (order & 1) ? jobs - 1 - j : j);
        vp_assume(!any);
        ul after = get_set(p.c, n);
        vp_check(p.self_supporting(after), "a quiet sweep leaves an unsupported node");
        vp_check(vp_or(after == 0, p.every_pixel(after)), "a quiet sweep leaves some pixels without a node and others with one");
        vp_check(vp_imp(after != 0, after == p.s), "a quiet sweep changes availability");
        vp_observe("after", 0, after);
        vp_assume(after != 0);
        vp_reach("witness");
        return;
    }
    ConstraintGraph q = p.c;
    bool changed = true;
    ul round = 0;
    while (changed) {
        changed = false;
        for (ul j = 0; j < jobs; ++j) {
            ul k = (order & 1) != (round & (order >> 1) & 1) ? jobs - 1 - j : j;
            bool r = csp_solution_iteration(&p.c, jobs, k);
            changed = changed || r;
        }
        ++round;
    }
    bool v = solve_csp(&q);
    ul a = get_set(p.c, n), b = get_set(q, n);
    vp_check(a == b, "pruning by jobs and pruning in one piece leave different nodes");
    vp_check(v == (a != 0), "the verdicts differ");
    vp_observe("after", 0, a);
    vp_assume(a != p.s);
    if (v) vp_reach("witness"); else vp_reach("unsolvable");
}
