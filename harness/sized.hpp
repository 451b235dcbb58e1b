#pragma once
#include "common.hpp"
// A problem whose sizes are symbolic; its arrays are not backed by data (only index arithmetic is exercised).
static inline DisparityGraph sized_graph(Dims& n)
{
    ul top = (1ul << vp_param("BITS", 6)) - 1;
    n.w = vp_u64("W", -1, 2, top); n.h = vp_u64("H", -1, 1, top); n.d = vp_u64("D", -1, 2, top);
    vp_assume(n.d <= n.w);
    DisparityGraph g(Image{2, 1, 1, std::vector<ul>(2)}, Image{2, 1, 1, std::vector<ul>(2)}, 2, 1, 1);
    g.left.width = g.right.width = n.w;
    g.left.height = g.right.height = n.h;
    g.disparity_levels = n.d;
    return g;
}
