#include "sized.hpp"
using namespace sp::indexing::checks;
extern "C" void vp_harness()
{
    Dims n; DisparityGraph g = sized_graph(n);
    ul top = ~0ul - (1ul << vp_param("BITS", 6)) - 1;
    ul dtop = top;
    Pixel p{vp_u64("x", -1, 0, top), vp_u64("y", -1, 0, top)}, q{vp_u64("x2", -1, 0, top), vp_u64("y2", -1, 0, top)};
    ul d = vp_u64("d", -1, 0, dtop), d2 = vp_u64("d2", -1, 0, dtop);
    bool in = vp_and(p.x < n.w, p.y < n.h), in2 = vp_and(q.x < n.w, q.y < n.h);
    bool right = vp_and(q.y == p.y, q.x == p.x + 1), left = vp_and(q.y == p.y, q.x + 1 == p.x);
    bool down = vp_and(q.x == p.x, q.y == p.y + 1), up = vp_and(q.x == p.x, q.y + 1 == p.y);
    bool touch = vp_or(vp_or(right, left), vp_or(down, up));
    bool hood = vp_and(vp_and(in, in2), touch);
    vp_check(neighborhood_exists(&g, p, q) == hood, "a neighbourhood exists exactly for touching pixels of the image");
    vp_check(neighborhood_exists(&g, q, p) == hood, "neighbourhood existence is symmetric");
    ul i = vp_u64("i", -1, 0, ~0ul);
    bool fast = vp_and(in, vp_or(vp_or(vp_and(i == 0, p.x + 1 < n.w), vp_and(i == 1, p.x > 0)), vp_or(vp_and(i == 2, p.y + 1 < n.h), vp_and(i == 3, p.y > 0))));
    vp_check(neighborhood_exists_fast(&g, p, i) == fast, "a neighbourhood named by number exists exactly when that neighbour is inside");
    bool na = vp_and(in, vp_and(d < n.d, d < n.w - p.x)), nb = vp_and(in2, vp_and(d2 < n.d, d2 < n.w - q.x));
    // x + disparity wrapping around is outside the claim
    vp_assume(vp_and(p.x + d >= d, q.x + d2 >= d2));
    vp_check(node_exists(&g, {p, d}) == na, "a node exists exactly within image, levels and left image");
    bool cont = vp_and(vp_imp(right, d2 + 1 >= d), vp_imp(left, d + 1 >= d2));
    bool e = vp_and(vp_and(hood, cont), vp_and(na, nb));
    vp_check(edge_exists(&g, {{p, d}, {q, d2}}) == e, "an edge exists exactly as documented");
    vp_check(edge_exists(&g, {{q, d2}, {p, d}}) == e, "edge existence does not depend on direction");
    vp_observe("e", 0, e);
    if (e) vp_reach("witness");
    if (vp_and(hood, !e)) vp_reach("missing edge");
}
