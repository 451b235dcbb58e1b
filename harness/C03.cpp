#include "sized.hpp"
using namespace sp::indexing;
// Two arbitrary elements of a problem: positions in range, distinct, as documented.
// MODE 0: sizes symbolic; MODE 1: every size up to S (one solver obligation group over all of them); MODE 2: one given size.
struct Elem { ul x, y, d, i; };
static void body(Dims n, DisparityGraph& g, Elem a_, Elem b_, bool witness)
{
    ul x = a_.x, y = a_.y, d = a_.d, i = a_.i, X = b_.x, Y = b_.y, D = b_.d, I = b_.i;
    bool in = vp_and(vp_and(vp_and(x < n.w, y < n.h), d < n.d), vp_and(vp_and(X < n.w, Y < n.h), D < n.d));
    Pixel p{x, y}, q{X, Y};
    Node a{p, d}, b{q, D};
    bool sp_ = vp_and(x == X, y == Y), sn = vp_and(sp_, d == D), sh = vp_and(sp_, i == I), sr = vp_and(sn, i == I);
    ul pi = pixel_index(&g.right, p), pj = pixel_index(&g.right, q);
    vp_check(vp_imp(in, pi == x + y * n.w), "pixel layout is row-major");
    vp_check(vp_imp(in, pi < n.w * n.h), "pixel position is inside the image");
    vp_check(vp_imp(in, vp_iff(pi == pj, sp_)), "different pixels have different positions");
    ul ni = node_index(&g, a), nj = node_index(&g, b);
    vp_check(vp_imp(in, ni == d + n.d * (y + n.h * x)), "node layout follows the documented formula");
    vp_check(vp_imp(in, ni < n.w * n.h * n.d), "node position is inside the availability array");
    vp_check(vp_imp(in, vp_iff(ni == nj, sn)), "different nodes have different positions");
    ul hi = neighborhood_index_fast(&g, p, i), hj = neighborhood_index_fast(&g, q, I);
    vp_check(vp_imp(in, hi == i + 4 * (y + n.h * x)), "neighbourhood layout follows the documented formula");
    vp_check(vp_imp(in, hi < n.w * n.h * 4), "neighbourhood position is inside the array");
    vp_check(vp_imp(in, vp_iff(hi == hj, sh)), "different neighbourhoods have different positions");
    ul ri = reparametrization_index_fast(&g, a, i), rj = reparametrization_index_fast(&g, b, I);
    vp_check(vp_imp(in, ri < n.w * n.h * 4 * n.d), "reparametrization position is inside the array");
    vp_check(vp_imp(in, vp_iff(ri == rj, sr)), "different node/neighbour pairs have different positions");
    // the alternative names of neighbour i
    for (ul k = 0; k < 4; ++k) {
        Pixel nb{k == 0 ? x + 1 : k == 1 ? x - 1 : x, k == 2 ? y + 1 : k == 3 ? y - 1 : y};
        bool ex = vp_and(vp_and(in, i == k), vp_and(nb.x < n.w, nb.y < n.h));
        Edge e{a, {nb, D}};
        vp_check(vp_imp(ex, neighborhood_index(&g, p, nb) == hi), "a neighbourhood named by pixel has the same position");
        vp_check(vp_imp(ex, neighborhood_index_slow(&g, e) == hi), "a neighbourhood named by edge has the same position");
        vp_check(vp_imp(ex, reparametrization_index(&g, a, nb) == ri), "a reparametrization element named by pixel has the same position");
        vp_check(vp_imp(ex, reparametrization_index_slow(&g, e) == ri), "a reparametrization element named by edge has the same position");
    }
    if (witness) { vp_observe("ri", 0, ri); vp_observe("ni", 0, ni); vp_observe("hi", 0, hi); vp_observe("pi", 0, pi); vp_assume(vp_and(in, !sr)); vp_reach("witness"); }
}
extern "C" void vp_harness()
{
    ul mode = vp_param("MODE", 1);
    Dims n;
    if (mode == 0) {
        DisparityGraph g = sized_graph(n);
        ul t = (1ul << vp_param("BITS", 3)) - 1;
        Elem a{vp_u64("x", 0, 0, t), vp_u64("y", 0, 0, t), vp_u64("d", 0, 0, t), vp_u64("i", 0, 0, 3)};
        Elem b{vp_u64("x", 1, 0, t), vp_u64("y", 1, 0, t), vp_u64("d", 1, 0, t), vp_u64("i", 1, 0, 3)};
        body(n, g, a, b, true);
        return;
    }
    DisparityGraph g(Image{2, 1, 1, std::vector<ul>(2)}, Image{2, 1, 1, std::vector<ul>(2)}, 2, 1, 1);
    ul S = vp_param("S", 6);
    ul W = mode == 2 ? vp_param("W", 6) : S, H = mode == 2 ? vp_param("H", 6) : S, D = mode == 2 ? vp_param("D", 6) : S;
    Elem a{vp_u64("x", 0, 0, W - 1), vp_u64("y", 0, 0, H - 1), vp_u64("d", 0, 0, D - 1), vp_u64("i", 0, 0, 3)};
    Elem b{vp_u64("x", 1, 0, W - 1), vp_u64("y", 1, 0, H - 1), vp_u64("d", 1, 0, D - 1), vp_u64("i", 1, 0, 3)};
    for (n.w = mode == 2 ? W : 2; n.w <= W; ++n.w)
        for (n.h = mode == 2 ? H : 1; n.h <= H; ++n.h)
            for (n.d = mode == 2 ? D : 2; n.d <= D && n.d <= n.w; ++n.d) {
                g.left.width = g.right.width = n.w;
                g.left.height = g.right.height = n.h;
                g.disparity_levels = n.d;
                body(n, g, a, b, n.w == W && n.h == H && n.d == D);
            }
}
