#include "csp.hpp"
using namespace sp::labeling::finder;
// worst deviation of a labeling given by labels (concrete) from the lowest penalties; labelings are enumerated as concrete tuples
struct Worst {
    Dims n; DisparityGraph& g; LowestPenalties& lp;
    double node(ul x, ul y, ul d) { return spec_node_penalty(g, x, y, d) - low_node(x, y); }
    double low_node(ul x, ul y) { double m = 0; bool first = true; for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) { double v = spec_node_penalty(g, x, y, d); m = first ? v : vp_ite_d(v < m, v, m); first = false; } return m; }
    double low_edge(ul x, ul y, ul i, ul nx, ul ny)
    {
        double m = 0; bool first = true;
        for (ul d = 0; d < n.d; ++d) for (ul e = 0; e < n.d; ++e) if (spec_edge(n, x, y, d, nx, ny, e)) {
            double v = spec_edge_penalty(g, x, y, d, i, nx, ny, e); m = first ? v : vp_ite_d(v < m, v, m); first = false; }
        return m;
    }
};
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = sym_graph(n);
    LowestPenalties lp(&g);
    std::vector<double> candidates = fetch_available_penalties(&lp);
    double threshold = calculate_minimal_consistent_threshold(&lp, &g, candidates);
    ConstraintGraph c(&g, &lp, threshold);
    vp_check(solve_csp(&c), "the problem is not solvable with the chosen threshold");
    vp_check(find_labeling(&c) == &c, "no labeling is found");
    Image map = build_disparity_map(&c);
    ul cells = n.w * n.h;
    vp_check(map.data.size() == cells, "the map has another size");
    // deviations
    Worst w{n, g, lp};
    ul total = 1;
    for (ul i = 0; i < cells; ++i) total *= n.d;
    std::vector<double> dn(cells * n.d), de(cells * 2 * n.d * n.d);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        double lown = w.low_node(x, y);
        for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) dn[(x + n.w * y) * n.d + d] = spec_node_penalty(g, x, y, d) - lown;
        for (ul k = 0; k < 2; ++k) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, 2 * k, nx, ny)) continue;
            double low = w.low_edge(x, y, 2 * k, nx, ny);
            for (ul d = 0; d < n.d; ++d) for (ul e = 0; e < n.d; ++e)
                if (spec_edge(n, x, y, d, nx, ny, e)) de[(((x + n.w * y) * 2 + k) * n.d + d) * n.d + e] = spec_edge_penalty(g, x, y, d, 2 * k, nx, ny, e) - low;
        }
    }
    for (ul i = 0; i < cells; ++i) vp_check(map.data[i] < n.d, "an intensity is no disparity");
    bool legal_map = false, attained = false;
    for (ul t = 0; t < total; ++t) {
        std::vector<ul> lab(cells);
        bool legal = true; ul r = t;
        for (ul i = 0; i < cells; ++i) { lab[i] = r % n.d; r /= n.d; legal = legal && spec_node(n, i % n.w, i / n.w, lab[i]); }
        for (ul x = 0; legal && x < n.w; ++x) for (ul y = 0; legal && y < n.h; ++y) for (ul k = 0; legal && k < 2; ++k) {
            ul nx, ny;
            if (spec_neigh(n, x, y, 2 * k, nx, ny)) legal = spec_edge(n, x, y, lab[x + n.w * y], nx, ny, lab[nx + n.w * ny]);
        }
        if (!legal) continue;
        bool within = true, here = true;  // every deviation within the threshold; this labeling is the map
        double worst = 0;
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
            ul i = x + n.w * y;
            double v = dn[i * n.d + lab[i]]; worst = vp_ite_d(worst < v, v, worst);
            here = vp_and(here, map.data[i] == lab[i]);
            for (ul k = 0; k < 2; ++k) {
                ul nx, ny;
                if (!spec_neigh(n, x, y, 2 * k, nx, ny)) continue;
                double u = de[((i * 2 + k) * n.d + lab[i]) * n.d + lab[nx + n.w * ny]]; worst = vp_ite_d(worst < u, u, worst);
            }
        }
        (void)within;
        legal_map = vp_or(legal_map, here);
        vp_check(!(worst < threshold), "some labeling has a smaller worst deviation than the threshold");
        attained = vp_or(attained, vp_and(here, worst <= threshold));
    }
    vp_check(legal_map, "the map breaks the borders or the continuity constraint");
    vp_check(attained, "the map's worst deviation exceeds the threshold");
    for (ul i = 0; i < cells; ++i) vp_observe("map", i, map.data[i]);
    vp_assume(threshold > 0);
    vp_reach("witness");
}
