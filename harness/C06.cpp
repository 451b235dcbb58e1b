#include "common.hpp"
using namespace sp::graph::disparity;
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
        if (!spec_node(n, x, y, d)) continue;
        vp_check(node_penalty(&g, {{x, y}, d}) == spec_node_penalty(g, x, y, d), "node penalty");
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            for (ul nd = 0; nd < n.d; ++nd) {
                if (!spec_edge(n, x, y, d, nx, ny, nd)) continue;
                double e = edge_penalty(&g, {{{x, y}, d}, {{nx, ny}, nd}});
                vp_check(e == spec_edge_penalty(g, x, y, d, i, nx, ny, nd), "edge penalty");
                vp_check(e == edge_penalty(&g, {{{nx, ny}, nd}, {{x, y}, d}}), "edge penalty is symmetric");
            }
        }
    }
    vp_observe("positive", 0, node_penalty(&g, {{0, 0}, 1}) > 0);
    vp_reach("witness");
}
