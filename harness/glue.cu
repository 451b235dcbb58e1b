// Added to the CUDA program (device side compiled as C++): entry points for the harnesses.  Fills the structures field by field
// and calls the device functions; nothing of the computation is repeated here.
#include <cuda_runtime.h>
#include <solve_csp.hpp>
#include <constraint_graph.hpp>
#include <indexing_checks.hpp>
#include <labeling_finder.hpp>
extern "C" {
vp_dim vp_block_id, vp_thread_id, vp_block_dim, vp_grid_dim;
struct VpArgs {
    unsigned long w, h, max, d; float t, c, s;
    int* nodes; unsigned* left; unsigned* right;
    float* pixels; float* edges; float* rep;
};
#define SET \
    struct DisparityGraph g; struct LowestPenalties lp; struct ConstraintGraph cg; \
    g.left.data = a->left; g.left.width = a->w; g.left.height = a->h; g.left.max_value = a->max; \
    g.right.data = a->right; g.right.width = a->w; g.right.height = a->h; g.right.max_value = a->max; \
    g.cleanness = a->c; g.smoothness = a->s; g.disparity_levels = a->d; g.reparametrization = a->rep; \
    lp.graph = &g; lp.pixels = a->pixels; lp.neighborhoods = a->edges; \
    cg.threshold = a->t; cg.nodes_availability = a->nodes; cg.lowest_penalties = &lp; cg.disparity_graph = &g;
#define PX(n, X, Y) struct Pixel n; n.x = X; n.y = Y;
#define ND(n, X, Y, D) struct Node n; n.pixel.x = X; n.pixel.y = Y; n.disparity = D;
#define ED(e) struct Edge e; e.node.pixel.x = x; e.node.pixel.y = y; e.node.disparity = z; e.neighbor.pixel.x = x2; e.neighbor.pixel.y = y2; e.neighbor.disparity = z2;
int dev_neighborhood_exists(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long x2, unsigned long y2) { SET PX(p, x, y) PX(q, x2, y2) return neighborhood_exists(&g, p, q) != 0; }
int dev_neighborhood_exists_fast(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long i) { SET PX(p, x, y) return neighborhood_exists_fast(&g, p, i) != 0; }
int dev_node_exists(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z) { SET ND(n, x, y, z) return node_exists(&g, n) != 0; }
int dev_edge_exists(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z, unsigned long x2, unsigned long y2, unsigned long z2) { SET ED(e) return edge_exists(&g, e) != 0; }
float dev_node_penalty(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z) { SET ND(n, x, y, z) return node_penalty(&g, n); }
float dev_edge_penalty(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z, unsigned long x2, unsigned long y2, unsigned long z2) { SET ED(e) return edge_penalty(&g, e); }
int dev_is_node_available(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z) { SET ND(n, x, y, z) return is_node_available(&cg, n) != 0; }
int dev_is_edge_available(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z, unsigned long x2, unsigned long y2, unsigned long z2) { SET ED(e) return is_edge_available(&cg, e) != 0; }
int dev_should_remove_node(struct VpArgs* a, unsigned long x, unsigned long y, unsigned long z) { SET ND(n, x, y, z) return should_remove_node(&cg, n) != 0; }
int dev_process_pixel(struct VpArgs* a, unsigned long x, unsigned long y) { SET PX(p, x, y) return csp_process_pixel(&cg, p) != 0; }
int dev_choose_best_node(struct VpArgs* a, unsigned long x, unsigned long y) { SET PX(p, x, y) return choose_best_node(&cg, p) != 0; }
void dev_csp_kernel(struct VpArgs* a, int* changed, unsigned long block, unsigned long thread)
{
    vp_block_id = vp_dim{(unsigned)block, 0, 0}; vp_thread_id = vp_dim{(unsigned)thread, 0, 0};
    vp_grid_dim = vp_dim{(unsigned)a->w, 1, 1}; vp_block_dim = vp_dim{(unsigned)a->h, 1, 1};
    csp_iteration_cuda(a->nodes, changed, a->left, a->right, a->pixels, a->edges, a->rep, a->h, a->w, a->max, a->d, a->t, a->c, a->s);
}
void dev_choose_kernel(struct VpArgs* a, unsigned long x, unsigned long y)
{
    vp_block_id = vp_thread_id = vp_dim{0, 0, 0}; vp_grid_dim = vp_block_dim = vp_dim{1, 1, 1};
    choose_best_node_gpu(a->nodes, a->left, a->right, a->pixels, a->edges, a->rep, a->h, a->w, a->max, a->d, a->t, a->c, a->s, x, y);
}
}
