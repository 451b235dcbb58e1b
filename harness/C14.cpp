// One job of a sweep under arbitrary interference by the other jobs (rely/guarantee).
// Bounds of every shared state: S (a mutually supporting set) <= state <= A0 (what was available).
// Each read sees any state between the bounds, each write has to leave a state between them.
#include "csp.hpp"
template <class T> static void* raw(std::vector<T>& v) { return v.data(); }
static void* raw(std::vector<bool>& v) { return v.begin()._M_p; }
template <class T> static ul raw_size(std::vector<T>& v) { return v.size() * sizeof(T); }
static ul raw_size(std::vector<bool>& v) { return avail_words(v) * 8; }
extern "C" void vp_harness()
{
    Problem p(dims());
    Dims n = p.n;
    ul s = sym_set("supported", n);
    vp_assume((s & ~p.s) == 0);
    vp_assume(p.self_supporting(s));
    auto lo = p.c.nodes_availability, hi = p.c.nodes_availability;
    set_avail_word(lo, 0, s); set_avail_word(hi, 0, p.s);
    ul* last = new ul(0);
    void* mem = raw(p.c.nodes_availability);
    vp_share_size(raw_size(p.c.nodes_availability));
    vp_share(mem, raw(lo), raw(hi));
    vp_share_last(mem, last);
    bool r;
    if (vp_param("PIXEL", 0)) r = csp_process_pixel(&p.c, {vp_param("X", 0), vp_param("Y", 0)});
    else r = csp_solution_iteration(&p.c, vp_param("JOBS", 1), vp_param("JOB", 0));
    vp_unshare(mem);
    ul after = get_set(p.c, n);
    // the job that writes last may call the sweep quiet only when nothing is left to remove at all
    vp_check(vp_imp(vp_and(*last != 0, !r), after == 0), "a job that made the last write of a sweep reports no change although nodes remain");
    vp_observe("changed", 0, r);
    vp_observe("last", 0, *last);
    if (r) { vp_assume(s != 0); vp_assume(s != p.s); vp_reach("witness"); }
}
