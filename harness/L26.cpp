// Larger problems on the device: the OpenCL program against the CPU code (MODE 26), and the real host loop of
// lib/gpu_csp.cpp against the CPU search (MODE 27).
#ifdef VP_HOST
#include "csp.hpp"
#else
#include "launch.hpp"
#endif
#include "large.hpp"
using namespace sp::labeling::finder;
#ifdef VP_HOST
#include <gpu_csp.hpp>
ul vp_order(ul k, ul n) { switch (vp_param("ORDER", 0)) { case 0: return k; case 1: return n - 1 - k; default: return 2 * k < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1; } }
namespace gpu { program create_program(const std::string&, const context&) { return program(); } program create_program(const std::vector<std::string>&, const context&) { return program(); } }
#endif
static bool same(const int* nodes, const ConstraintGraph& c)
{
    bool r = true;
    for (ul k = 0; k < c.nodes_availability.size(); ++k) r = vp_and(r, (nodes[k] != 0) == (c.nodes_availability[k] != 0));
    return r;
}
extern "C" void vp_harness()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp = vp_param("BARE", 0) ? bare_lowest(g, n, true) : LowestPenalties(&g);
    ConstraintGraph c(&g, &lp, vp_int_double("threshold", -1, vp_param("TMIN", 0), vp_param("TMAX", 12), -(int)vp_param("TS", 0)));
    Flags a(n);
    if (vp_param("START", 1)) a.fill(c, vp_param("ASEL", 0), vp_param("EVERY", 5));
#ifdef VP_HOST
    a.read(c);
    std::vector<unsigned char> start(c.nodes_availability.begin(), c.nodes_availability.end());
    bool found = find_labeling(&c) != nullptr;
    std::vector<unsigned char> cpu(c.nodes_availability.begin(), c.nodes_availability.end());
    for (ul k = 0; k < start.size(); ++k) c.nodes_availability[k] = start[k];
    find_labeling_cl(&c);
    bool equal = true;
    for (ul k = 0; k < start.size(); ++k) equal = vp_and(equal, (c.nodes_availability[k] != 0) == (cpu[k] != 0));
    vp_check(vp_imp(found, equal), "the device finds another labeling than the CPU");
    vp_assume(found);
#else
    VpArgs v = device_args(c);
    ul s = vp_param("STEP", 1);
    for (ul x = 0; x < n.w; x += s) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; d += s) {
        if (!spec_node(n, x, y, d)) continue;
        vp_check((double)dev_node_penalty(&v, x, y, d) == node_penalty(&g, {{x, y}, d}), "penalty of a node");
        vp_check((dev_should_remove_node(&v, x, y, d) != 0) == should_remove_node(&c, {{x, y}, d}), "decision to remove a node");
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny;
            if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            for (ul e = 0; e < n.d; e += s) {
                Edge z{{{x, y}, d}, {{nx, ny}, e}};
                vp_check((dev_is_edge_available(&v, x, y, d, nx, ny, e) != 0) == is_edge_available(&c, z), "availability of an edge");
                if (spec_edge(n, x, y, d, nx, ny, e)) vp_check((double)dev_edge_penalty(&v, x, y, d, nx, ny, e) == edge_penalty(&g, z), "penalty of an edge");
            }
        }
    }
    vp_check(same(v.nodes, c), "reading changes the availability");
    if (vp_param("SWEEP", 1)) {
        // one launch of the pruning kernel, item after item, does what the CPU does with the same pixels in the same order
        int changed = 0; bool any = false;
        for (ul k = 0; k < n.w * n.h; ++k) {
            csp_launch(&v, &changed, k, n.w * n.h);
            bool r = csp_process_pixel(&c, {k % n.w, k / n.w});
            any = vp_or(any, r);
        }
        vp_check((changed != 0) == any, "the change flag after a launch");
        vp_check(same(v.nodes, c), "availability after a launch");
    }
    for (ul x : {0ul, n.w / 2, n.w - 1}) {
        choose_launch(&v, x, n.h - 1);
        choose_best_node(&c, {x, n.h - 1});
        vp_check(same(v.nodes, c), "availability after choosing a node");
    }
#endif
    vp_reach("witness");
}
