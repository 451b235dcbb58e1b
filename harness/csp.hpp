#pragma once
#include "common.hpp"
using namespace sp::graph::constraint;
// A constraint problem in an arbitrary state.
struct Problem {
    Dims n; DisparityGraph g; LowestPenalties lp; ConstraintGraph c; ul s;
    static DisparityGraph mk(Dims n) { DisparityGraph g = sym_graph(n); sym_reparametrization(g); return g; }
    static double thr() { return vp_int_double("threshold", -1, -(long)vp_param("TMIN", 0), (long)vp_param("TMAX", 20), -(int)vp_param("TS", 1)); }
    Problem(Dims n) : n(n), g(mk(n)), lp(&g), c(&g, &lp, thr()), s(0)
    {
        if (vp_param("TABLE", 0)) sym_lowest(lp, n, -(long)vp_param("LMAX", 4), vp_param("LMAX", 4));
        if (vp_param("START", 1)) { s = sym_set("avail", n); put_set(c, n, s); }
        else s = get_set(c, n);
    }
    // edge within the threshold, whatever the availability of its nodes
    bool ok_edge(ul x, ul y, ul d, ul i, ul nx, ul ny, ul nd) const
    {
        double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
        return spec_edge_penalty(g, x, y, d, i, nx, ny, nd) - low <= c.threshold;
    }
    // does the node have, in set s, an available edge to each of its neighbours
    bool supported(ul s, ul x, ul y, ul d) const
    {
        bool all = true;
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            bool any = false;
            for (ul nd = 0; nd < n.d; ++nd)
                if (spec_edge(n, x, y, d, nx, ny, nd)) any = vp_or(any, vp_and(in_set(n, s, nx, ny, nd), ok_edge(x, y, d, i, nx, ny, nd)));
            all = vp_and(all, any);
        }
        return all;
    }
    bool self_supporting(ul s) const
    {
        bool ok = true;
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d)
            if (spec_node(n, x, y, d)) ok = vp_and(ok, vp_imp(in_set(n, s, x, y, d), supported(s, x, y, d)));
        return ok;
    }
    ul pixel_mask(ul x, ul y) const { ul m = 0; for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) m |= 1ul << node_bit(n, x, y, d); return m; }
    bool every_pixel(ul s) const
    {
        bool ok = true;
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) ok = vp_and(ok, (s & pixel_mask(x, y)) != 0);
        return ok;
    }
};
