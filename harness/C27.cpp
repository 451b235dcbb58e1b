// The pruning kernel of the device program.
// MODE 0: one work-item under arbitrary interference by the others: it never drops a supported node, revives a node or clears the change flag.
// MODE 1: one work-item alone: when it removes a node, the flag is set; a flag that is set stays.
// MODE 2: a whole launch with its work-items in order ORDER: when the flag is clear, nothing is left to remove.
#include "device.hpp"
#include "launch.hpp"
static bool flag(const int* c) { return vp_or(c[0] != 0, c[1] != 0); }   // which of the two the host reads is its business
static ul order(ul k, ul n) { switch (vp_param("ORDER", 0)) { case 0: return k; case 1: return n - 1 - k; default: return 2 * k < n ? 2 * k : 2 * (k - (n + 1) / 2) + 1; } }
static ul set_of(const int* nodes, Dims n) { ul s = 0; for (ul k = 0; k < n.w * n.h * n.d; ++k) s |= (ul)(nodes[k] != 0) << k; return s; }
static int* bits(ul s, Dims n) { int* p = new int[n.w * n.h * n.d]; for (ul k = 0; k < n.w * n.h * n.d; ++k) p[k] = (s >> k) & 1; return p; }
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    VpArgs a = device_args(p.c);
    ul count = n.w * n.h;
    int* changed = new int[2]; changed[0] = changed[1] = 0;
    ul mode = vp_param("MODE", 0);
    if (mode == 2) {
        for (ul k = 0; k < count; ++k) csp_launch(&a, changed, order(k, count), count);
        ul after = set_of(a.nodes, n);
        vp_check((after & ~p.s) == 0, "a launch revives a node");
        vp_check(vp_imp(after != p.s, flag(changed)), "a launch removes a node but the change flag is clear");
        vp_check(vp_imp(!flag(changed), p.self_supporting(after)), "the change flag is clear but a node without support is left");
        vp_observe("after", 0, after);
        if (!flag(changed)) { vp_assume(after != 0); vp_reach("witness"); } else vp_reach("changed");
        return;
    }
    ul id = vp_param("X", 0) + n.w * vp_param("Y", 0);
    if (mode == 1) {
        bool set = vp_u64("flag", -1, 0, 1);
        changed[0] = changed[1] = set;
        csp_launch(&a, changed, id, count);
        ul after = set_of(a.nodes, n);
        vp_check(vp_imp(vp_or(set, after != p.s), flag(changed)), "the change flag is lost although a node was removed");
        vp_observe("after", 0, after);
        vp_assume(after != p.s);
        vp_reach("witness");
        return;
    }
    ul s = sym_set("supported", n);
    vp_assume((s & ~p.s) == 0);
    vp_assume(p.self_supporting(s));
    vp_share_size(n.w * n.h * n.d * sizeof(int));
    vp_share(a.nodes, bits(s, n), bits(p.s, n));
    csp_launch(&a, changed, id, count);
    vp_unshare(a.nodes);
    ul after = set_of(a.nodes, n);
    vp_assume(s != 0); vp_assume(s != p.s);
    vp_reach("witness");
}
