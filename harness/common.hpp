// Shared by the harnesses: symbolic problems and independent specifications.
#pragma once
#include "vp.h"
#include <constraint_graph.hpp>
#include <disparity_graph.hpp>
#include <image.hpp>
#include <indexing.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
#include <lowest_penalties.hpp>
#include <types.hpp>
#include <vector>
using sp::types::Edge;
using sp::types::Node;
using sp::types::Pixel;
using sp::image::Image;
using sp::graph::disparity::DisparityGraph;
using sp::graph::lowest_penalties::LowestPenalties;
using sp::graph::constraint::ConstraintGraph;
typedef unsigned long ul;
struct Dims { ul w, h, d; };
static inline Dims dims(ul w = 3, ul h = 2, ul d = 3) { return Dims{vp_param("W", w), vp_param("H", h), vp_param("D", d)}; }
static inline Image sym_image(const char* name, ul w, ul h, ul max)
{
    std::vector<ul> data(w * h);
    // only the first ISYM intensities are symbolic
    for (ul i = 0; i < w * h; ++i) data[i] = i < vp_param("ISYM", ~0ul) ? vp_u64(name, i, vp_param("IMIN", 0), max) : (i * i * 5 + i + name[0]) % (max + 1);
    return Image{w, h, max, data};
}
// A stereo problem made through the public constructor: symbolic intensities in IMIN..MAX,
// symbolic weights (multiples of 2^WS in 0..WMAX*2^WS, not both zero).
static inline DisparityGraph sym_graph(Dims n)
{
    ul max = vp_param("MAX", 3);
    long wmax = vp_param("WMAX", 3);
    int ws = -(int)vp_param("WS", 0);
    double c, s;
    if (vp_param("FIXW", 0)) { c = (double)vp_param("CLEAN", 1); s = (double)vp_param("SMOOTH", 1); }
    else {
        c = vp_int_double("cleanness", -1, 0, wmax, ws);
        s = vp_int_double("smoothness", -1, 0, wmax, ws);
        vp_assume(vp_or(c > 0, s > 0));
    }
    return DisparityGraph(sym_image("left", n.w, n.h, max), sym_image("right", n.w, n.h, max), n.d, c, s);
}
// arbitrary reparametrization (multiples of 2^-RS in -RMAX..RMAX)
static inline void sym_reparametrization(DisparityGraph& g)
{
    long r = vp_param("RMAX", 3);
    int rs = -(int)vp_param("RS", 0);
    if (!r) return;
    // RSEL: only that many values, spread over the array, differ from zero
    ul step = vp_param("RSEL", 0) ? (g.reparametrization.size() + vp_param("RSEL", 1) - 1) / vp_param("RSEL", 1) : 1;
    for (ul i = 0; i < g.reparametrization.size(); i += step) g.reparametrization[i] = vp_int_double("rep", i, -r, r, rs);
}
// ---- specification, written from the documentation only
static inline bool spec_node(Dims n, ul x, ul y, ul d) { return x < n.w && y < n.h && d < n.d && x + d < n.w; }
// neighbour i of pixel: right, left, down, up
static inline bool spec_neigh(Dims n, ul x, ul y, ul i, ul& nx, ul& ny)
{
    nx = x; ny = y;
    switch (i) {
    case 0: if (x + 1 >= n.w) return false; nx = x + 1; return true;
    case 1: if (x == 0) return false; nx = x - 1; return true;
    case 2: if (y + 1 >= n.h) return false; ny = y + 1; return true;
    default: if (y == 0) return false; ny = y - 1; return true;
    }
}
// the ordering constraint between horizontally adjacent pixels: the left image position may not step back
static inline bool spec_edge(Dims n, ul x, ul y, ul d, ul nx, ul ny, ul nd)
{
    if (!spec_node(n, x, y, d) || !spec_node(n, nx, ny, nd)) return false;
    if (y != ny) return x == nx && (y + 1 == ny || ny + 1 == y);
    if (x + 1 == nx) return x + d <= nx + nd;
    if (nx + 1 == x) return nx + nd <= x + d;
    return false;
}
static inline double sq(double a) { return a * a; }
// ---- availability as raw bits, whatever the container
template <class A> static inline ul avail_words(const A& a) { return (a.size() + 63) / 64; }
static inline void set_avail_word(std::vector<bool>& a, ul k, ul v) { a.begin()._M_p[k] = v; }
static inline ul get_avail_word(const std::vector<bool>& a, ul k) { return a.begin()._M_p[k]; }
template <class A> static inline void set_avail_word(A& a, ul k, ul v)
{
    for (ul i = 64 * k; i < a.size() && i < 64 * k + 64; ++i) a[i] = (v >> (i - 64 * k)) & 1;
}
template <class A> static inline ul get_avail_word(const A& a, ul k)
{
    ul v = 0;
    for (ul i = 64 * k; i < a.size() && i < 64 * k + 64; ++i) v |= (ul)(a[i] != 0) << (i - 64 * k);
    return v;
}
// A set of nodes: bit (d + D*(y + H*x)); at most 64 nodes
static inline ul node_bit(Dims n, ul x, ul y, ul d) { return d + n.d * (y + n.h * x); }
static inline bool in_set(Dims n, ul s, ul x, ul y, ul d) { return (s >> node_bit(n, x, y, d)) & 1; }
static inline ul existing_set(Dims n)
{
    ul s = 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) s |= 1ul << node_bit(n, x, y, d);
    return s;
}
// arbitrary set of existing nodes
static inline ul sym_set(const char* name, Dims n)
{
    ul all = n.w * n.h * n.d;
    return vp_u64(name, -1, 0, all == 64 ? ~0ul : (1ul << all) - 1) & existing_set(n);
}
// the library's availability of all nodes as such a set (read through its public predicate)
static inline ul get_set(const ConstraintGraph& g, Dims n)
{
    ul s = 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
        bool a = sp::graph::constraint::is_node_available(&g, {{x, y}, d});
        s |= (ul)a << node_bit(n, x, y, d);
    }
    return s;
}
static inline void put_set(ConstraintGraph& g, Dims n, ul s)
{
    set_avail_word(g.nodes_availability, 0, s);
}
// penalties of every existing node and edge as the documentation defines them
static inline double spec_rep(const DisparityGraph& g, ul x, ul y, ul d, ul i) { return g.reparametrization[sp::indexing::reparametrization_index_fast(&g, {{x, y}, d}, i)]; }
static inline double spec_node_penalty(const DisparityGraph& g, ul x, ul y, ul d)
{
    double r = (double)g.right.data[x + y * g.right.width], l = (double)g.left.data[x + d + y * g.left.width];
    return g.cleanness * sq(r - l) + spec_rep(g, x, y, d, 0) + spec_rep(g, x, y, d, 1) + spec_rep(g, x, y, d, 2) + spec_rep(g, x, y, d, 3);
}
static inline ul opposite(ul i) { return i ^ 1; }
static inline double spec_edge_penalty(const DisparityGraph& g, ul x, ul y, ul d, ul i, ul nx, ul ny, ul nd)
{
    return g.smoothness * sq((double)d - (double)nd) - spec_rep(g, x, y, d, i) - spec_rep(g, nx, ny, nd, opposite(i));
}
// lowest penalties given as arbitrary values (symmetric tables): any state of the table, not only computed minima
static inline void sym_lowest(LowestPenalties& lp, Dims n, long lo, long hi)
{
    int rs = -(int)vp_param("RS", 0);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        lp.pixels[sp::indexing::pixel_index(&lp.graph->right, {x, y})] = vp_int_double("lowpix", x * n.h + y, lo, hi, rs);
        for (ul i = 0; i < 4; i += 2) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            double v = vp_int_double("lowhood", i + 4 * (y + n.h * x), lo, hi, rs);
            lp.neighborhoods[sp::indexing::neighborhood_index_fast(lp.graph, {x, y}, i)] = v;
            lp.neighborhoods[sp::indexing::neighborhood_index_fast(lp.graph, {nx, ny}, opposite(i))] = v;
        }
    }
}
