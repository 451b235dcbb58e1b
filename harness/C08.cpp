#include "common.hpp"
using namespace sp::graph::lowest_penalties;
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    LowestPenalties lp(&g);
    vp_check(lp.graph == &g, "the graph is kept");
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        double m = spec_node_penalty(g, x, y, 0);
        for (ul d = 1; d < n.d; ++d) if (spec_node(n, x, y, d)) { double p = spec_node_penalty(g, x, y, d); m = vp_ite_d(p < m, p, m); }
        vp_check(lowest_pixel_penalty(&lp, {x, y}) == m, "stored lowest penalty of a pixel");
        vp_check(calculate_lowest_pixel_penalty(&g, {x, y}) == m, "calculated lowest penalty of a pixel");
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            double e = 0; bool first = true; ul nd0 = 0, d0 = 0;
            for (ul d = 0; d < n.d; ++d) for (ul nd = 0; nd < n.d; ++nd) {
                if (!spec_edge(n, x, y, d, nx, ny, nd)) continue;
                double p = spec_edge_penalty(g, x, y, d, i, nx, ny, nd);
                if (first) { e = p; first = false; } else e = vp_ite_d(p < e, p, e);
                d0 = d; nd0 = nd;
            }
            Pixel a{x, y}, b{nx, ny};
            vp_check(lowest_neighborhood_penalty(&lp, {{a, d0}, {b, nd0}}) == e, "stored lowest penalty of a neighbourhood, by edge");
            vp_check(lowest_neighborhood_penalty_fast(&lp, a, b) == e, "stored lowest penalty of a neighbourhood, by pixels");
            vp_check(lowest_neighborhood_penalty_fast(&lp, b, a) == e, "stored lowest penalty of a neighbourhood, from its other end");
            vp_check(calculate_lowest_neighborhood_penalty(&g, a, b) == e, "calculated lowest penalty of a neighbourhood");
            vp_check(calculate_lowest_neighborhood_penalty_slow(&g, a, i) == e, "calculated lowest penalty of a neighbourhood, by number");
        }
    }
    vp_observe("low", 0, lowest_pixel_penalty(&lp, {0, 0}) > 0);
    vp_reach("witness");
}
