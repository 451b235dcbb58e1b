// Stand-ins for the search: the map they make spells out the problem they were given.
#include "common.hpp"
#ifdef USE_OPENCL
#include <gpu_csp.hpp>
#endif
#include <cstring>
extern "C" { int vp_no_labeling, vp_no_threshold; const Image *vp_left, *vp_right; }
namespace sp { namespace labeling { namespace finder {
static const ConstraintGraph* labeled; static ul how;
FLOAT_ARRAY fetch_available_penalties(const LowestPenalties* lp) { FLOAT_ARRAY r; r.push_back(lp->pixels.size()); r.push_back(7); return r; }
FLOAT calculate_minimal_consistent_threshold(const LowestPenalties* lp, const DisparityGraph* g, FLOAT_ARRAY a)
{
    vp_check(lp->pixels.size() == g->left.width * g->left.height && a.size() == 2 && a[0] == lp->pixels.size() && a[1] == 7, "the threshold is computed for another problem");
    return vp_no_threshold ? -1e9 : 1e9 + g->disparity_levels;
}
ConstraintGraph* find_labeling(ConstraintGraph* g) { labeled = g; how = 1; vp_reach("search"); return vp_no_labeling ? nullptr : g; }
ConstraintGraph* find_labeling_cl(ConstraintGraph* g) { labeled = g; how = 2; vp_reach("search"); return vp_no_labeling ? nullptr : g; }
ConstraintGraph* find_labeling_cuda(ConstraintGraph* g) { labeled = g; how = 3; vp_reach("search"); return vp_no_labeling ? nullptr : g; }
// an image is judged here rather than printed, which keeps the text that is written free of symbolic lengths
static bool is(const Image& a, const Image* e)
{
    bool r = a.width == e->width && a.height == e->height && a.max_value == e->max_value && a.data.size() == e->data.size();
    if (r) for (ul i = 0; i < e->data.size(); ++i) vp_check(a.data[i] == e->data[i], "an image of the problem is not the one that was given");
    return r;
}
static ul bits(double d) { ul r; std::memcpy(&r, &d, 8); return r; }
Image build_disparity_map(const ConstraintGraph* c)
{
    const DisparityGraph* g = c->disparity_graph;
    std::vector<ul> d; d.reserve(32 + g->reparametrization.size());
    d.push_back(labeled == c ? how : 0);
    d.push_back(c->lowest_penalties->pixels.size());
    d.push_back(bits(c->threshold));
    d.push_back(g->disparity_levels); d.push_back(bits(g->cleanness)); d.push_back(bits(g->smoothness));
    d.push_back(is(g->left, vp_left)); d.push_back(is(g->right, vp_right));
    for (double r : g->reparametrization) d.push_back(bits(r));
    Image m; m.width = d.size(); m.height = 1; m.max_value = ~0ul; m.data = d;
    labeled = nullptr;
    return m;
}
} } }
