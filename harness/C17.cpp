#include "csp.hpp"
using namespace sp::labeling::finder;
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    LowestPenalties lp(&g);
    ul k = vp_param("K", 3);
    std::vector<double> list(k);
    int ts = -(int)vp_param("TS", 0);
    for (ul i = 0; i < k; ++i) {
        list[i] = vp_int_double("candidate", i, 0, (long)vp_param("TMAX", 12), ts);
        if (i) vp_assume(list[i - 1] < list[i]);
    }
    std::vector<unsigned char> solvable(k);
    for (ul i = 0; i < k; ++i) {
        ConstraintGraph c(&g, &lp, list[i]);
        solvable[i] = solve_csp(&c);
    }
    vp_assume(solvable[k - 1] != 0);
    double t = calculate_minimal_consistent_threshold(&lp, &g, list);
    bool member = false;
    for (ul i = 0; i < k; ++i) {
        member = vp_or(member, t == list[i]);
        vp_check(vp_imp(t == list[i], solvable[i] != 0), "the problem is not solvable with the chosen threshold");
        vp_check(vp_imp(list[i] < t, solvable[i] == 0), "a smaller candidate is solvable");
    }
    vp_check(member, "the threshold is no candidate");
    for (ul i = 0; i < k; ++i) vp_observe("chosen", i, t == list[i]);
    if (k > 1) vp_assume(t != list[k - 1]);
    if (k > 2) vp_assume(t != list[0]);
    vp_reach("witness");
}
