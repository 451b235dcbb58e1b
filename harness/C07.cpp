#include "common.hpp"
using namespace sp::graph::disparity;
// energy of an arbitrary labeling: with any reparametrization that is zero towards missing neighbours, and with none
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    DisparityGraph z = g;
    sym_reparametrization(g);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul i = 0; i < 4; ++i) {
        ul nx, ny;
        if (spec_neigh(n, x, y, i, nx, ny)) continue;
        for (ul d = 0; d < n.d; ++d) g.reparametrization[sp::indexing::reparametrization_index_fast(&g, {{x, y}, d}, i)] = 0;
    }
    std::vector<ul> k(n.w * n.h);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        ul top = n.w - 1 - x < n.d - 1 ? n.w - 1 - x : n.d - 1;
        k[x * n.h + y] = vp_u64("label", x * n.h + y, 0, top);
    }
    double eg = 0, ez = 0, low = 0;
    bool feasible = true;
    bool lower = vp_param("LOWER", 0);
    LowestPenalties* lp = lower ? new LowestPenalties(&g) : nullptr;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        Node a{{x, y}, k[x * n.h + y]};
        eg = eg + node_penalty(&g, a); ez = ez + node_penalty(&z, a);
        if (lower) low = low + sp::graph::lowest_penalties::lowest_pixel_penalty(lp, {x, y});
        for (ul i = 0; i < 4; i += 2) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            Node b{{nx, ny}, k[nx * n.h + ny]};
            eg = eg + edge_penalty(&g, {a, b}); ez = ez + edge_penalty(&z, {a, b});
            if (lower) low = low + sp::graph::lowest_penalties::lowest_neighborhood_penalty(lp, {a, b});
            if (i == 0) feasible = vp_and(feasible, a.disparity <= b.disparity + 1);
        }
    }
    vp_check(eg == ez, "the energy of the labeling is the same with and without the reparametrization");
    if (lower) { vp_check(vp_imp(feasible, low <= eg), "the sum of the lowest penalties is a lower bound"); delete lp; }
    vp_observe("positive", 0, eg > 0);
    vp_reach("witness");
}
