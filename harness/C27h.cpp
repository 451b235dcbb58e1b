// The host side (lib/gpu_csp.cpp) with the real device program: every launch runs its work-items in order ORDER.
#include "csp.hpp"
#include <gpu_csp.hpp>
#include <labeling_finder.hpp>
using namespace sp::labeling::finder;
ul vp_order(ul k, ul n) { switch (vp_param("ORDER", 0)) { case 0: return k; case 1: return n - 1 - k; default: return 2 * k < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1; } }
namespace gpu { program create_program(const std::string&, const context&) { return program(); } program create_program(const std::vector<std::string>&, const context&) { return program(); } }
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul start = p.s;
    find_labeling_cl(&p.c);
    ul after = get_set(p.c, n);
    vp_check((after & ~start) == 0, "a node is revived on the device");
    vp_check(p.self_supporting(after), "a node without support is left when the device reports no change");
    bool one = true, none = after == 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        ul m = after & p.pixel_mask(x, y);
        one = vp_and(one, vp_and(m != 0, (m & (m - 1)) == 0));
    }
    vp_check(vp_or(one, none), "neither one node in every pixel nor none at all is left");
    put_set(p.c, n, start);
    bool found = find_labeling(&p.c) != nullptr;
    ul cpu = get_set(p.c, n);
    vp_check(vp_imp(found, after == cpu), "the device finds another labeling than the CPU");
    vp_observe("after", 0, after);
    vp_assume(after != 0);
    vp_reach("witness");
}
