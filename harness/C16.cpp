#include "common.hpp"
using namespace sp::graph::lowest_penalties;
using namespace sp::labeling::finder;
typedef std::vector<double> V;
static void compare(const V& r, const V& want, const char* order, const char* missing, const char* extra)
{
    ul m = want.size(); // at most one candidate per deviation
    ul k = r.size();
    vp_check(k <= m, extra);
    V v(m); std::vector<bool> in(m);
    std::vector<unsigned char> have(m);
    for (ul i = 0; i < m; ++i) if (i < k) { v[i] = r[i]; have[i] = 1; }
    for (ul i = 0; i + 1 < m; ++i) vp_check(vp_imp(have[i + 1] != 0, vp_and(have[i] != 0, v[i] < v[i + 1])), order);
    for (ul i = 0; i < m; ++i) {
        bool member = false, known = false;
        for (ul j = 0; j < m; ++j) {
            member = vp_or(member, vp_and(have[j] != 0, v[j] == want[i]));
            known = vp_or(known, v[i] == want[j]);
        }
        vp_check(member, missing);
        vp_check(vp_imp(have[i] != 0, known), extra);
    }
    vp_observe("count", 0, k);
}
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    sym_reparametrization(g);
    LowestPenalties lp(&g);
    V all;
    ul mode = vp_param("MODE", 0);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        double low = lp.pixels[sp::indexing::pixel_index(&g.right, {x, y})];
        V one;
        for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) one.push_back(spec_node_penalty(g, x, y, d) - low);
        if (mode == 1) { V r = fetch_pixel_available_penalties(&g, {x, y}, low); compare(r, one, "the candidates of a pixel are not strictly increasing", "a deviation of a node of the pixel is missing", "a candidate of the pixel is no deviation"); }
        for (double v : one) all.push_back(v);
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            if (mode == 0 && (i & 1)) continue; // the same edges from their other end
            double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
            V one;
            for (ul d = 0; d < n.d; ++d) for (ul nd = 0; nd < n.d; ++nd)
                if (spec_edge(n, x, y, d, nx, ny, nd)) one.push_back(spec_edge_penalty(g, x, y, d, i, nx, ny, nd) - low);
            if (mode == 1) {
                V r = fetch_edge_available_penalties(&g, Edge{{{x, y}, 0}, {{nx, ny}, 0}}, low);
                compare(r, one, "the candidates of a neighborhood are not strictly increasing", "a deviation of an edge of the neighborhood is missing", "a candidate of the neighborhood is no deviation of an existing edge");
            }
            for (double v : one) all.push_back(v);
        }
    }
    if (mode == 0) {
        V r = fetch_available_penalties(&lp);
        compare(r, all, "the candidates are not strictly increasing", "a deviation is missing", "a candidate is no deviation of an existing node or edge");
        vp_assume(r.size() > 2);
    }
    vp_reach("witness");
}
