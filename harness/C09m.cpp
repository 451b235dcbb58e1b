#include "common.hpp"
using namespace sp::graph::constraint;
// marking from an arbitrary availability; one node, arbitrary
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g(sym_image("left", n.w, n.h, 1), sym_image("right", n.w, n.h, 1), n.d, 1, 1);
    LowestPenalties lp(&g);
    ConstraintGraph c(&g, &lp, 1);
    ul s = sym_set("avail", n);
    put_set(c, n, s);
    vp_check(get_set(c, n) == s, "availability is read as it was written");
    vp_check(check_nodes_left(&c) == (s != 0), "nodes are left exactly when one is available");
    ul x = vp_u64("x", -1, 0, n.w - 1), y = vp_u64("y", -1, 0, n.h - 1), d = vp_u64("d", -1, 0, n.d - 1);
    ul bit = 1ul << (d + n.d * (y + n.h * x));
    make_node_available(&c, {{x, y}, d});
    vp_check(get_set(c, n) == (s | bit), "marking a node available changes that node only");
    vp_check(is_node_available(&c, {{x, y}, d}), "a marked node is available");
    make_node_unavailable(&c, {{x, y}, d});
    vp_check(get_set(c, n) == (s & ~bit), "marking a node unavailable changes that node only");
    ul left = get_set(c, n);
    vp_check(check_nodes_left(&c) == (left != 0), "nodes are left exactly when one is available (2)");
    vp_reach("witness");
    make_node_available(&c, {{x, y}, d});
    make_all_nodes_unavailable(&c);
    vp_check(get_set(c, n) == 0, "marking all unavailable leaves none");
    vp_check(!check_nodes_left(&c), "no node is left then");
    vp_check(vp_and(c.threshold == 1, c.nodes_availability.size() == n.w * n.h * n.d), "nothing else changes");
}
