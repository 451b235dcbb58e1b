#include "common.hpp"
using namespace sp::graph::constraint;
// Edge availability over an arbitrary availability, arbitrary symmetric lowest-penalty tables and an arbitrary threshold.
// MODE 0: every edge whose coordinates and disparities are at most one beyond the problem; MODE 1: one edge with arbitrary 64-bit parts.
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    LowestPenalties lp(&g);
    if (vp_param("TABLE", 1)) sym_lowest(lp, n, -4, 4);
    double t = vp_int_double("threshold", -1, -2, (long)vp_param("TMAX", 20), -1);
    ConstraintGraph c(&g, &lp, t);
    ul s = sym_set("avail", n);
    put_set(c, n, s);
    if (vp_param("MODE", 0) == 1) {
        ul any = ~0ul;
        Edge e{{{vp_u64("x", -1, 0, any), vp_u64("y", -1, 0, any)}, vp_u64("d", -1, 0, any)}, {{vp_u64("nx", -1, 0, any), vp_u64("ny", -1, 0, any)}, vp_u64("nd", -1, 0, any)}};
        bool exists = false;
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) for (ul i = 0; i < 4; ++i) for (ul nd = 0; nd < n.d; ++nd) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny) || !spec_edge(n, x, y, d, nx, ny, nd)) continue;
            bool m = vp_and(vp_and(vp_and(e.node.pixel.x == x, e.node.pixel.y == y), vp_and(e.node.disparity == d, e.neighbor.disparity == nd)), vp_and(e.neighbor.pixel.x == nx, e.neighbor.pixel.y == ny));
            exists = vp_or(exists, m);
        }
        vp_assume(!exists);
        bool got = is_edge_available(&c, e);
        vp_check(!got, "an edge that does not exist is not available");
        vp_check(get_set(c, n) == s, "asking changes nothing");
        vp_reach("witness");
        return;
    }
    bool ok = true;
    for (ul x = 0; x <= n.w; ++x) for (ul y = 0; y <= n.h; ++y) for (ul d = 0; d <= n.d; ++d)
        for (ul nx = x ? x - 1 : 0; nx <= x + 1; ++nx) for (ul ny = y ? y - 1 : 0; ny <= y + 1; ++ny) for (ul nd = 0; nd <= n.d; ++nd) {
            bool got = is_edge_available(&c, {{{x, y}, d}, {{nx, ny}, nd}});
            if (!spec_edge(n, x, y, d, nx, ny, nd)) { vp_check(!got, "an edge that does not exist is not available"); continue; }
            ul i = nx == x + 1 ? 0 : nx + 1 == x ? 1 : ny == y + 1 ? 2 : 3;
            double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
            bool want = vp_and(spec_edge_penalty(g, x, y, d, i, nx, ny, nd) - low <= t, vp_and(in_set(n, s, x, y, d), in_set(n, s, nx, ny, nd)));
            vp_check(got == want, "an existing edge is available exactly when its nodes are and its penalty is within the threshold");
            ok = vp_and(ok, got == is_edge_available(&c, {{{nx, ny}, nd}, {{x, y}, d}}));
        }
    vp_check(ok, "both directions agree");
    vp_check(get_set(c, n) == s, "asking changes nothing");
    vp_observe("e", 0, is_edge_available(&c, {{{0, 0}, 0}, {{1, 0}, 0}}));
    vp_reach("witness");
}
