#pragma once
#include "csp.hpp"
// The OpenCL program, entered through harness/glue.cl
#ifdef VP_CUDA
typedef unsigned dev_ul;     // the CUDA program, entered through harness/glue.cu
#else
typedef ul dev_ul;
#endif
struct VpArgs {
    ul w, h, max, d; float t, c, s;
    int* nodes; dev_ul* left; dev_ul* right; float* pixels; float* edges; float* rep;
};
extern "C" {
int dev_neighborhood_exists(VpArgs*, ul, ul, ul, ul);
int dev_neighborhood_exists_fast(VpArgs*, ul, ul, ul);
int dev_node_exists(VpArgs*, ul, ul, ul);
int dev_edge_exists(VpArgs*, ul, ul, ul, ul, ul, ul);
float dev_node_penalty(VpArgs*, ul, ul, ul);
float dev_edge_penalty(VpArgs*, ul, ul, ul, ul, ul, ul);
int dev_is_node_available(VpArgs*, ul, ul, ul);
int dev_is_edge_available(VpArgs*, ul, ul, ul, ul, ul, ul);
int dev_should_remove_node(VpArgs*, ul, ul, ul);
int dev_process_pixel(VpArgs*, ul, ul);
int dev_choose_best_node(VpArgs*, ul, ul);
}
template <class T, class V> static inline T* device_array(const V& v) { T* p = new T[v.size()]; for (ul i = 0; i < v.size(); ++i) p[i] = (T)v[i]; return p; }
// the data of a problem, converted as lib/gpu_csp.cpp converts it
static inline VpArgs device_args(const ConstraintGraph& c)
{
    const DisparityGraph& g = *c.disparity_graph;
    return VpArgs{g.right.width, g.right.height, g.right.max_value, g.disparity_levels, (float)c.threshold, (float)g.cleanness, (float)g.smoothness,
        device_array<int>(c.nodes_availability), device_array<dev_ul>(g.left.data), device_array<dev_ul>(g.right.data),
        device_array<float>(c.lowest_penalties->pixels), device_array<float>(c.lowest_penalties->neighborhoods), device_array<float>(g.reparametrization)};
}
