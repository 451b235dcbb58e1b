// Larger problems: concrete, irregular data with a few symbolic values in it.
#pragma once
#include "common.hpp"
#include <algorithm>
static inline ul mix(ul i) { i += 0x9e3779b97f4a7c15ul; i = (i ^ (i >> 30)) * 0xbf58476d1ce4e5b9ul; i = (i ^ (i >> 27)) * 0x94d049bb133111ebul; return i ^ (i >> 31); }
// k positions spread over 0..n-1
static inline ul spread(ul i, ul k, ul n) { return k <= 1 ? n / 2 : i * (n - 1) / (k - 1); }
static inline Image large_image(const char* name, ul seed, ul w, ul h, ul max)
{
    std::vector<ul> data(w * h);
    for (ul i = 0; i < w * h; ++i) data[i] = mix(i + seed) % (max + 1);
    ul k = vp_param("ISEL", 0);
    for (ul i = 0; i < k; ++i) data[spread(i, k, w * h)] = vp_u64(name, i, 0, max);
    return Image{w, h, max, data};
}
static inline DisparityGraph large_graph(Dims n)
{
    ul max = vp_param("MAX", 3);
    double c = vp_param("CLEAN", 1), s = vp_param("SMOOTH", 1);
    if (vp_param("WSEL", 0)) {
        c = vp_int_double("cleanness", -1, 0, vp_param("WMAX", 3), 0); s = vp_int_double("smoothness", -1, 0, vp_param("WMAX", 3), 0);
        vp_assume(vp_or(c > 0, s > 0));
    }
    DisparityGraph g(large_image("left", 1000, n.w, n.h, max), large_image("right", 5000, n.w, n.h, max), n.d, c, s);
    long r = vp_param("RMAX", 0), rs = vp_param("RS", 0);
    double unit = 1.0 / (double)(1ul << rs);
    if (r) {
        // values are small multiples of 2^-RS here; those towards pixels outside stay zero
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul i = 0; i < 4; ++i) {
            ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            for (ul d = 0; d < n.d; ++d) {
                ul at = sp::indexing::reparametrization_index_fast(&g, {{x, y}, d}, i);
                g.reparametrization[at] = unit * (double)((long)(mix(at + 77) % (2 * r + 1)) - r);
            }
        }
        ul k = vp_param("RSEL", 0);
        for (ul j = 0; j < k; ++j) {
            ul x = spread(j, k, n.w), y = spread(k - 1 - j, k, n.h), i = vp_param("RI", 0), nx, ny;
            if (k == 1) { x = vp_param("RX", x); y = vp_param("RY", y); }
            while (!spec_neigh(n, x, y, i, nx, ny)) i = (i + 1) % 4;
            g.reparametrization[sp::indexing::reparametrization_index_fast(&g, {{x, y}, spread(j, k, n.d)}, i)] = vp_int_double("rep", j, -r, r, -(int)rs);
        }
    }
    return g;
}
// tables without the quadratic cost of computing them
static inline LowestPenalties bare_lowest(const DisparityGraph& g, Dims n, bool pixels)
{
    LowestPenalties lp; lp.graph = &g;
    lp.pixels.resize(n.w * n.h); lp.neighborhoods.resize(4 * n.w * n.h);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        if (pixels) {
            double m = spec_node_penalty(g, x, y, 0);
            for (ul d = 1; d < n.d && x + d < n.w; ++d) { double p = spec_node_penalty(g, x, y, d); m = vp_ite_d(p < m, p, m); }
            lp.pixels[x + y * n.w] = m;
        }
        for (ul i = 0; i < 4; ++i) lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)] = -(double)(mix(x + y + (i & 2)) % 3);
    }
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul i = 0; i < 4; i += 2) {
        ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
        lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {nx, ny}, opposite(i))] = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
    }
    return lp;
}
struct Flags {   // availability as a plain table of the harness
    Dims n; std::vector<unsigned char> f;
    Flags(Dims n) : n(n), f(n.w * n.h * n.d) {}
    ul at(ul x, ul y, ul d) const { return d + n.d * (y + n.h * x); }
    bool has(ul x, ul y, ul d) const { return f[at(x, y, d)] != 0; }
    void read(const ConstraintGraph& c)
    {
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) f[at(x, y, d)] = sp::graph::constraint::is_node_available(&c, {{x, y}, d});
    }
    // irregular availability with `k` symbolic entries among those of the pixels x0..x1
    void fill(ConstraintGraph& c, ul k, ul every)
    {
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) set(c, x, y, d, (x + 1 == n.w && every > 2) || mix(at(x, y, d) + 99) % every != 0);
        for (ul j = 0; j < k; ++j) {
            ul x = spread(j, k, n.w), y = spread(k - 1 - j, k, n.h), top = std::min(n.d, n.w - x);
            bit(c, j, x, y, spread(j % 3, 3, top));
        }
    }
    void set(ConstraintGraph& c, ul x, ul y, ul d, bool v)
    {
        f[at(x, y, d)] = v;
        if (v) sp::graph::constraint::make_node_available(&c, {{x, y}, d}); else sp::graph::constraint::make_node_unavailable(&c, {{x, y}, d});
    }
    void bit(ConstraintGraph& c, ul j, ul x, ul y, ul d)
    {
        ul b = vp_u64("bit", j, 0, 1);
        f[at(x, y, d)] = b;
        c.nodes_availability[sp::indexing::node_index(c.disparity_graph, {{x, y}, d})] = b;
    }
};
static inline bool flag_supported(const ConstraintGraph& c, const Flags& a, ul x, ul y, ul d)
{
    const DisparityGraph& g = *c.disparity_graph; Dims n = a.n;
    bool all = true;
    for (ul i = 0; i < 4; ++i) {
        ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
        double low = c.lowest_penalties->neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
        bool any = false;
        for (ul e = 0; e < n.d; ++e) if (spec_edge(n, x, y, d, nx, ny, e))
            any = vp_or(any, vp_and(a.has(nx, ny, e), spec_edge_penalty(g, x, y, d, i, nx, ny, e) - low <= c.threshold));
        all = vp_and(all, any);
    }
    return all;
}
