#include "common.hpp"
using namespace sp::graph::constraint;
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    LowestPenalties lp(&g);
    double t = vp_int_double("threshold", -1, -2, (long)vp_param("TMAX", 20), -1);
    ConstraintGraph c(&g, &lp, t);
    vp_check(vp_and(c.threshold == t, vp_and(c.disparity_graph == &g, c.lowest_penalties == &lp)), "the problem's parts are kept");
    vp_check(c.nodes_availability.size() == n.w * n.h * n.d, "one entry per pixel and level");
    ul want = 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        double m = spec_node_penalty(g, x, y, 0);
        for (ul d = 1; d < n.d; ++d) if (spec_node(n, x, y, d)) { double p = spec_node_penalty(g, x, y, d); m = vp_ite_d(p < m, p, m); }
        for (ul d = 0; d < n.d; ++d) {
            if (!spec_node(n, x, y, d)) continue;
            bool in = spec_node_penalty(g, x, y, d) - m <= t;
            want |= (ul)in << node_bit(n, x, y, d);
        }
    }
    ul got = get_set(c, n);
    vp_check(got == want, "exactly the nodes within the threshold are available");
    vp_check(check_nodes_left(&c) == (want != 0), "nodes are left exactly when one is available");
    vp_observe("set", 0, got);
    vp_reach("witness");
}
