// Existence predicates: device code against CPU code, sizes and coordinates symbolic.
#include "sized.hpp"
#include "device.hpp"
using namespace sp::indexing::checks;
extern "C" void vp_harness()
{
    Dims n; DisparityGraph g = sized_graph(n);
    VpArgs a{n.w, n.h, 1, n.d, 0, 1, 1, nullptr, nullptr, nullptr, nullptr, nullptr, nullptr};
    ul top = (2ul << (vp_param("COORD", 64) - 1)) - 1;   // all values the device's numbers have room for
    ul x = vp_u64("x", -1, 0, top), y = vp_u64("y", -1, 0, top), x2 = vp_u64("x2", -1, 0, top), y2 = vp_u64("y2", -1, 0, top);
    ul d = vp_u64("d", -1, 0, top), d2 = vp_u64("d2", -1, 0, top), i = vp_u64("i", -1, 0, top);
    Pixel p{x, y}, q{x2, y2};
    vp_check((dev_neighborhood_exists(&a, x, y, x2, y2) != 0) == neighborhood_exists(&g, p, q), "device and CPU disagree about a neighbourhood");
    vp_check((dev_neighborhood_exists_fast(&a, x, y, i) != 0) == neighborhood_exists_fast(&g, p, i), "device and CPU disagree about a numbered neighbourhood");
    vp_check((dev_node_exists(&a, x, y, d) != 0) == node_exists(&g, {p, d}), "device and CPU disagree about a node");
    bool e = edge_exists(&g, {{p, d}, {q, d2}});
    vp_check((dev_edge_exists(&a, x, y, d, x2, y2, d2) != 0) == e, "device and CPU disagree about an edge");
    vp_observe("e", 0, e);
    if (e) vp_reach("witness"); else vp_reach("missing edge");
}
