#pragma once
#include "device.hpp"
#ifdef VP_CUDA
extern "C" { void dev_csp_kernel(VpArgs*, int* changed, ul block, ul thread); void dev_choose_kernel(VpArgs*, ul x, ul y); }
static inline void csp_launch(VpArgs* a, int* changed, ul id, ul) { dev_csp_kernel(a, changed, id % a->w, id / a->w); }
static inline void choose_launch(VpArgs* a, ul x, ul y) { dev_choose_kernel(a, x, y); }
#else
struct VpArg { void* p; ul i; double f; int kind; };
extern "C" void vp_launch(const char* kernel, VpArg* args, ul count);
extern ul vp_global_id, vp_global_size;
static inline VpArg buf(void* p) { return VpArg{p, 0, 0, 1}; }
static inline VpArg num(ul v) { return VpArg{nullptr, v, 0, 8}; }
static inline VpArg flt(float v) { return VpArg{nullptr, 0, v, 2}; }
// one work-item of the pruning kernel
static inline void csp_launch(VpArgs* a, int* changed, ul id, ul count)
{
    VpArg v[] = {buf(a->nodes), buf(changed), buf(a->left), buf(a->right), buf(a->pixels), buf(a->edges), buf(a->rep), num(a->h), num(a->w), num(a->max), num(a->d), flt(a->t), flt(a->c), flt(a->s)};
    vp_global_id = id; vp_global_size = count;
    vp_launch("csp_iteration", v, 14);
}
static inline void choose_launch(VpArgs* a, ul x, ul y)
{
    VpArg v[] = {buf(a->nodes), buf(a->left), buf(a->right), buf(a->pixels), buf(a->edges), buf(a->rep), num(a->h), num(a->w), num(a->max), num(a->d), flt(a->t), flt(a->c), flt(a->s), num(x), num(y)};
    vp_global_id = 0; vp_global_size = 1;
    vp_launch("choose_best_node_gpu", v, 15);
}
#endif
