#include "common.hpp"
#include <limits>
#include <stdexcept>
// The constructor of a stereo problem: sizes, maxima, intensities, level count and weights symbolic.
extern "C" void vp_harness()
{
    ul W = vp_param("W", 2), H = vp_param("H", 2), N = W * H, any = ~0ul;
    Image l{0, 0, 0, std::vector<ul>(N)}, r{0, 0, 0, std::vector<ul>(N)};
    std::vector<ul> lk(N), rk(N);
    ul lw = l.width = vp_u64("lw", -1, 0, W), lh = l.height = vp_u64("lh", -1, 0, H), lm = l.max_value = vp_u64("lmax", -1, 0, any);
    ul rw = r.width = vp_u64("rw", -1, 0, W), rh = r.height = vp_u64("rh", -1, 0, H), rm = r.max_value = vp_u64("rmax", -1, 0, any);
    for (ul i = 0; i < N; ++i) { lk[i] = l.data[i] = vp_u64("left", i, 0, any); rk[i] = r.data[i] = vp_u64("right", i, 0, any); }
    ul d = vp_u64("levels", -1, 0, any);
    double c = vp_raw_double("cleanness", -1), s = vp_raw_double("smoothness", -1);
    bool okl = vp_and(lm > 0, vp_and(lw > 0, lh > 0)), okr = vp_and(rm > 0, vp_and(rw > 0, rh > 0));
    for (ul i = 0; i < N; ++i) {
        okl = vp_and(okl, vp_imp(i < lw * lh, lk[i] <= lm));
        okr = vp_and(okr, vp_imp(i < rw * rh, rk[i] <= rm));
    }
    bool same = vp_and(lw == rw, vp_and(lh == rh, lm == rm));
    bool lev = vp_and(d >= 2, d <= lw);
    double eps = std::numeric_limits<double>::epsilon();
    bool wok = vp_and(vp_and(c >= 0, s >= 0), vp_or(c >= eps, s >= eps));
    bool want = vp_and(vp_and(okl, okr), vp_and(vp_and(same, lev), wok));
    bool accepted = false, other = false;
    try {
        DisparityGraph g(l, r, d, c, s);
        accepted = true;
        vp_check(want, "only consistent problems are accepted");
        vp_check(vp_and(g.disparity_levels == d, vp_and(g.cleanness == c, g.smoothness == s)), "levels and weights are kept");
        bool k = vp_and(vp_and(g.left.width == lw, g.left.height == lh), vp_and(g.right.width == rw, g.right.height == rh));
        k = vp_and(k, vp_and(g.left.max_value == lm, g.right.max_value == rm));
        k = vp_and(k, vp_and(g.left.data.size() == N, g.right.data.size() == N));
        vp_check(k, "image headers are kept");
        bool same_data = true;
        for (ul i = 0; i < N; ++i) same_data = vp_and(same_data, vp_and(g.left.data[i] == lk[i], g.right.data[i] == rk[i]));
        vp_check(same_data, "intensities are kept");
        ul sz = g.reparametrization.size();
        vp_check(sz == lw * lh * 4 * d, "the reparametrization covers every pixel, neighbour and level");
        bool zero = true;
        for (ul i = 0; i < sz; ++i) if (!(g.reparametrization[i] == 0)) zero = false;
        vp_check(zero, "the reparametrization is zero");
        vp_reach("witness");
    } catch (std::invalid_argument&) {
        vp_reach("rejected");
    } catch (...) { other = true; }
    vp_check(!other, "only invalid_argument is raised");
    vp_check(accepted == want, "every consistent problem is accepted");
    vp_observe("accepted", 0, accepted);
}
