// The same problem for the CPU code (double, vector<bool>) and for the device code (float, int).
#include "launch.hpp"
using namespace sp::labeling::finder;
static ul device_set(const int* nodes, Dims n)
{
    ul s = 0;
    for (ul k = 0; k < n.w * n.h * n.d; ++k) s |= (ul)(nodes[k] != 0) << k;
    return s;
}
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    VpArgs a = device_args(p.c);
    ul mode = vp_param("MODE", 0);
    if (mode == 0) {        // penalties and edge availability of every node and edge, existing or not
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
            vp_check((dev_is_node_available(&a, x, y, d) != 0) == is_node_available(&p.c, {{x, y}, d}), "availability of a node");
            if (!spec_node(n, x, y, d)) continue;
            vp_check((double)dev_node_penalty(&a, x, y, d) == node_penalty(&p.g, {{x, y}, d}), "penalty of a node");
            for (ul i = 0; i < 4; ++i) {
                ul nx, ny;
                if (!spec_neigh(n, x, y, i, nx, ny)) continue;
                for (ul e = 0; e < n.d; ++e) {
                    vp_check((dev_is_edge_available(&a, x, y, d, nx, ny, e) != 0) == is_edge_available(&p.c, {{{x, y}, d}, {{nx, ny}, e}}), "availability of an edge");
                    if (spec_edge(n, x, y, d, nx, ny, e))
                        vp_check((double)dev_edge_penalty(&a, x, y, d, nx, ny, e) == edge_penalty(&p.g, {{{x, y}, d}, {{nx, ny}, e}}), "penalty of an edge");
                }
            }
        }
        vp_reach("witness");
        return;
    }
    if (mode == 1) {        // node removal test
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) {
            bool r = should_remove_node(&p.c, {{x, y}, d});
            vp_check((dev_should_remove_node(&a, x, y, d) != 0) == r, "decision to remove a node");
            vp_observe("remove", node_bit(n, x, y, d), r);
        }
        vp_check(device_set(a.nodes, n) == p.s, "the removal test changes a node");
        vp_reach("witness");
        return;
    }
    ul px = vp_param("X", 0), py = vp_param("Y", 0);
    bool r, q;
    if (mode == 4) { r = q = choose_best_node(&p.c, {px, py}) != nullptr; choose_launch(&a, px, py); }
    else if (mode == 2) { r = csp_process_pixel(&p.c, {px, py}); q = dev_process_pixel(&a, px, py) != 0; }
    else { r = choose_best_node(&p.c, {px, py}) != nullptr; q = dev_choose_best_node(&a, px, py) != 0; }
    vp_check(r == q, "reported result");
    ul s = get_set(p.c, n);
    vp_check(device_set(a.nodes, n) == s, "availability afterwards");
    vp_observe("after", 0, s);
    vp_reach("witness");
}
