// The host side (lib/cuda_csp.cu) with the real device program, from find_labeling_cuda to the labels read back.
#include "csp.hpp"
#include <cuda_csp.hpp>
#include <labeling_finder.hpp>
using namespace sp::labeling::finder;
extern "C" ul vp_cuda_live();
bool vp_cuda_failed();
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul start = p.s;
    try { find_labeling_cuda(&p.c); }
    catch (int status) {
        vp_check(vp_cuda_failed(), "the program ends although nothing failed");
        vp_check(status != 0, "a failure of the CUDA runtime ends the program with the status of a success");
        vp_reach("end");
        return;
    }
    vp_check(!vp_cuda_failed(), "a failure of the CUDA runtime passes unnoticed");
    ul after = get_set(p.c, n);
    vp_check(vp_cuda_live() == 0, "device memory is not freed");
    vp_check((after & ~start) == 0, "a node is revived on the device");
    vp_check(p.self_supporting(after), "a node without support is left");
    bool one = true, none = after == 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        ul m = after & p.pixel_mask(x, y);
        one = vp_and(one, vp_and(m != 0, (m & (m - 1)) == 0));
    }
    vp_check(vp_or(one, none), "neither one node in every pixel nor none at all is left");
    put_set(p.c, n, start);
    bool found = find_labeling(&p.c) != nullptr;
    ul cpu = get_set(p.c, n);
    vp_check(vp_imp(found, after == cpu), "the device finds another labeling than the CPU");
    vp_observe("after", 0, after);
    vp_assume(after != 0);
    vp_reach("witness");
}
