// The pruning kernel in lockstep: one thread per pixel; in every phase between grid-wide barriers they run one after the other,
// in the order ORDER.  What the barriers find in the shared memory (availability, change flag) is guessed (symbolic) while the
// first thread runs and confirmed while the last one runs, so every run considered is one that really occurs.  All must pass the
// same number of barriers (a thread that leaves while another waits hangs the grid), and when they are through nothing is left to
// remove.  Runs with more than TOP barriers are outside.
#include "launch.hpp"
static const ul TOP = 16, NODES = 8;
struct Shared { int flag, node[NODES]; };
static ul count_, turn_, threads_, stop_, nodes_;
static int *flag_, *node_;
static Shared agreed[TOP + 1], out[3][TOP + 1];
static void take(Shared& s) { s.flag = *flag_; for (ul i = 0; i < nodes_; ++i) s.node[i] = node_[i]; }
static void put(const Shared& s) { *flag_ = s.flag; for (ul i = 0; i < nodes_; ++i) node_[i] = s.node[i]; }
static bool same(const Shared& s) { bool r = *flag_ == s.flag; for (ul i = 0; i < nodes_; ++i) r = vp_and(r, (node_[i] != 0) == (s.node[i] != 0)); return r; }
extern "C" void vp_grid_sync()
{
    ul k = count_++;
    if (k >= TOP) { vp_assume(false); return; }
    if (turn_ && k >= stop_) return;               // too many barriers: reported when the thread is through
    take(out[turn_][k]);
    if (turn_ + 1 == threads_) vp_assume(same(agreed[k]));
    put(turn_ ? out[turn_ - 1][k + 1] : agreed[k]);
}
extern "C" void vp_harness()
{
    Problem p(dims());
    VpArgs a = device_args(p.c);
    static const ul orders[][3] = {{0, 1, 2}, {2, 1, 0}, {1, 0, 2}, {0, 2, 1}, {1, 2, 0}, {2, 0, 1}};
    const ul* order = orders[vp_param("ORDER", 0)];
    threads_ = p.n.w * p.n.h;
    nodes_ = threads_ * p.n.d;
    flag_ = new int[1]; *flag_ = (int)vp_u64("flag", -1, 0, 1);
    node_ = a.nodes;
    for (ul k = 0; k < TOP; ++k)
    {
        agreed[k].flag = (int)vp_u64("agreed", k, 0, 1);
        for (ul i = 0; i < nodes_; ++i) agreed[k].node[i] = (int)vp_u64("agreed-node", k * NODES + i, 0, 1);
    }
    Shared start; take(start);
    ul c = 0;
    for (turn_ = 0; turn_ < threads_; ++turn_)
    {
        if (turn_) put(out[turn_ - 1][0]);
        count_ = 0;
        csp_launch(&a, flag_, order[turn_], threads_);
        if (!turn_) { c = stop_ = count_; }
        vp_check(count_ == c, "a thread leaves the pruning loop while another one waits at the grid-wide barrier");
        take(out[turn_][c]);
    }
    for (ul i = 0; i < nodes_; ++i) vp_check(!vp_and(node_[i] != 0, start.node[i] == 0), "a removed node is revived");
    bool left = false;
    for (ul i = 0; i < threads_; ++i) left = dev_process_pixel(&a, i % p.n.w, i / p.n.w) || left;
    vp_check(!left, "the pruning loop ends although a node can be removed");
    vp_observe("barriers", 0, c);
    vp_reach("witness");
}
