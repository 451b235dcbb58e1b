// Stand-in for the CUDA runtime: device memory is host memory; a launch of the pruning kernel runs its threads one after the
// other, again and again until nothing changes (what the grid-wide barrier and the change flag are for, see C29sched.cpp).
#include "vp.h"
#include <stdlib.h>
#include <string.h>
typedef unsigned long ul;
struct dim3 { unsigned x, y, z; };
typedef int cudaError_t;
struct vp_dim { unsigned x, y, z; };
extern "C" vp_dim vp_block_id, vp_thread_id, vp_block_dim, vp_grid_dim;
static struct Block { char* p; ul n; bool live; } blocks[64];
static ul count;
static dim3 grid, block;
static bool inside(const void* p, ul n)
{
    for (ul i = 0; i < count; ++i) if (blocks[i].live && (const char*)p == blocks[i].p && n <= blocks[i].n) return true;
    return false;
}
static ul size_of(const void* p) { for (ul i = 0; i < count; ++i) if (blocks[i].live && (const char*)p == blocks[i].p) return blocks[i].n; return 0; }
// with FAIL, one call (symbolic which) of the runtime reports a failure
static ul calls, bad = ~0ul;
bool vp_cuda_failed() { return bad != ~0ul && calls > bad; }
static int result()
{
    if (!vp_param("FAIL", 0)) return 0;
    if (bad == ~0ul) bad = vp_u64("failing", -1, 0, 63);
    return calls++ == bad ? 999 : 0;
}
extern "C" {
// the end of the program; caught by the harness
[[noreturn]] void vp_exit(int status) { throw status; }
[[noreturn]] void vp_assert_fail(const char*, const char*, unsigned, const char*) { throw 134; }
void vp_grid_sync() {}
ul vp_cuda_live() { ul r = 0; for (ul i = 0; i < count; ++i) r += blocks[i].live; return r; }
cudaError_t cudaMalloc(void** p, ul n)
{
    vp_check(count < 64, "more device memory blocks than expected");
    blocks[count] = Block{new char[n], n, true};
    memset(blocks[count].p, 85, n);
    *p = blocks[count++].p;
    return result();
}
cudaError_t cudaFree(void* p)
{
    for (ul i = 0; i < count; ++i) if (blocks[i].live && (char*)p == blocks[i].p) { blocks[i].live = false; return result(); }
    vp_check(p == nullptr, "something is freed that is not device memory");
    return 0;
}
cudaError_t cudaMemcpy(void* to, const void* from, ul n, int kind)
{
    vp_check(kind == 1 ? inside(to, n) : kind == 2 ? inside(from, n) : kind == 3 ? inside(to, n) && inside(from, n) : true, "copy from or to something that is not device memory of this size");
    memcpy(to, from, n);
    return result();
}
cudaError_t cudaMemset(void* p, int v, ul n) { vp_check(inside(p, n), "something is filled that is not device memory of this size"); memset(p, v, n); return result(); }
cudaError_t cudaDeviceSynchronize() { return result(); }
cudaError_t cudaGetLastError() { return result(); }
cudaError_t cudaPeekAtLastError() { return result(); }
const char* cudaGetErrorString(cudaError_t) { return ""; }
int cudaConfigureCall(dim3 g, dim3 b, ul, void*) { grid = g; block = b; return 0; }
unsigned __cudaPushCallConfiguration(dim3 g, dim3 b, ul, void*) { grid = g; block = b; return 0; }
}
void csp_iteration_cuda(int*, int*, unsigned*, unsigned*, float*, float*, float*, unsigned, unsigned, unsigned, unsigned, float, float, float);
void choose_best_node_gpu(int*, unsigned*, unsigned*, float*, float*, float*, unsigned, unsigned, unsigned, unsigned, float, float, float, unsigned, unsigned);
template <class F> static void threads(F f)
{
    vp_grid_dim = vp_dim{grid.x, grid.y, grid.z}; vp_block_dim = vp_dim{block.x, block.y, block.z};
    vp_check(block.x <= 1024, "a block of more than 1024 threads");
    for (unsigned b = 0; b < grid.x; ++b) for (unsigned t = 0; t < block.x; ++t) { vp_block_id = vp_dim{b, 0, 0}; vp_thread_id = vp_dim{t, 0, 0}; f(); }
}
void __device_stub__csp_iteration_cuda(int* nodes, int* changed, unsigned* l, unsigned* r, float* p, float* e, float* rep, unsigned h, unsigned w, unsigned max, unsigned d, float t, float c, float s)
{
    ul n = size_of(nodes) / sizeof(int);
    bool again = true;
    for (ul k = 0; again && k <= n; ++k) {
        ul before = 0, after = 0;
        for (ul i = 0; i < n; ++i) before |= (ul)(nodes[i] != 0) << i;
        threads([&] { csp_iteration_cuda(nodes, changed, l, r, p, e, rep, h, w, max, d, t, c, s); });
        for (ul i = 0; i < n; ++i) after |= (ul)(nodes[i] != 0) << i;
        again = after != before;
    }
}
void __device_stub__choose_best_node_gpu(int* nodes, unsigned* l, unsigned* r, float* p, float* e, float* rep, unsigned h, unsigned w, unsigned max, unsigned d, float t, float c, float s, unsigned x, unsigned y)
{
    threads([&] { choose_best_node_gpu(nodes, l, r, p, e, rep, h, w, max, d, t, c, s, x, y); });
}
