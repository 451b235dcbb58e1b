#include "common.hpp"
using namespace sp::graph::constraint;
// Long dependency chains: constant images, few symbolic availability bits and a symbolic threshold; removals travel against the scan.
extern "C" void vp_harness()
{
    Dims n = dims(24, 1, 2);
    Image im{n.w, n.h, 1, std::vector<ul>(n.w * n.h)};
    DisparityGraph g(im, im, n.d, 1, 1);
    LowestPenalties lp(&g);
    double t = vp_int_double("threshold", -1, 0, vp_param("TMAX", 0), 0);
    ConstraintGraph c(&g, &lp, t);
    ul k = vp_param("FREE", 1), total = n.w * n.h * n.d;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) make_node_available(&c, {{x, y}, d});
    for (ul i = 0; i < k; ++i) {
        ul x = (i * 7 + vp_param("AT", n.w - 1)) % n.w, y = (i * 5 + n.h - 1) % n.h, d = 0;
        c.nodes_availability[sp::indexing::node_index(&g, {{x, y}, d})] = vp_u64("bit", i, 0, 1);
    }
    (void)total;
    bool r = solve_csp(&c);
    std::vector<bool> a(total);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) a[node_bit(n, x, y, d)] = is_node_available(&c, {{x, y}, d});
    bool supported = true, every = true, none = true;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        bool any = false;
        for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) {
            bool here = a[node_bit(n, x, y, d)];
            any = vp_or(any, here);
            for (ul i = 0; i < 4; ++i) {
                ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
                bool edge = false;
                double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
                for (ul e = 0; e < n.d; ++e) if (spec_edge(n, x, y, d, nx, ny, e))
                    edge = vp_or(edge, vp_and(a[node_bit(n, nx, ny, e)], spec_edge_penalty(g, x, y, d, i, nx, ny, e) - low <= t));
                supported = vp_and(supported, vp_imp(here, edge));
            }
        }
        every = vp_and(every, any); none = vp_and(none, !any);
    }
    vp_check(supported, "every remaining node has an available edge to every neighbour");
    vp_check(vp_or(none, every), "either every pixel keeps a node or none does");
    vp_check(r == !none, "the verdict is true exactly when a node remains");
    vp_observe("verdict", 0, r);
    if (r) vp_reach("witness"); else vp_reach("unsolvable");
}
