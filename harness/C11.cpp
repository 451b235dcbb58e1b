#include "csp.hpp"
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul removed = 0;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
        if (!spec_node(n, x, y, d)) continue;
        bool want = vp_and(in_set(n, p.s, x, y, d), !p.supported(p.s, x, y, d));
        vp_check(should_remove_node(&p.c, {{x, y}, d}) == want, "a node should be removed exactly when a neighbour offers no available edge");
        removed |= (ul)want << node_bit(n, x, y, d);
    }
    vp_check(get_set(p.c, n) == p.s, "asking changes nothing");
    // processing one pixel (any of them) from this state
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        put_set(p.c, n, p.s);
        bool changed = csp_process_pixel(&p.c, {x, y});
        ul m = p.pixel_mask(x, y), after = get_set(p.c, n);
        vp_check((after & m) == (p.s & m & ~removed), "processing a pixel removes exactly its unsupported nodes");
        vp_check((after & ~m) == (p.s & ~m), "processing a pixel touches no other pixel");
        vp_check(changed == ((removed & m) != 0), "processing a pixel reports whether it removed a node");
        vp_observe("after", x * n.h + y, after);
    }
    vp_assume(removed != 0);
    vp_reach("witness");
}
