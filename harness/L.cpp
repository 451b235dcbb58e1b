// Larger problems (see large.hpp); MODE is the number of the property.
#include "large.hpp"
#include <stdexcept>
using namespace sp::graph::constraint;
using namespace sp::graph::lowest_penalties;
using namespace sp::labeling::finder;
static double threshold()
{
    if (vp_param("RAW", 0)) { double t = vp_raw_double("threshold", -1); vp_assume(t == t); return t; }
    return vp_int_double("threshold", -1, vp_param("TMIN", 0), vp_param("TMAX", 12), -(int)vp_param("TS", 0));
}
// levels worth looking at: the smallest, the largest, around powers of two
static std::vector<ul> levels(ul top)
{
    std::vector<ul> r;
    for (ul d = 0; d < top; ++d) { bool p = d < 6 || d + 3 > top; for (ul k = 8; k <= top; k *= 2) p |= d + 1 >= k && d <= k + 1; if (p) r.push_back(d); }
    return r;
}
static void penalties()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    for (ul x : {0ul, 1ul, n.w / 2, n.w - 2, n.w - 1}) for (ul y : {0ul, n.h - 1}) for (ul d : levels(std::min(n.d, n.w - x))) {
        vp_check(node_penalty(&g, {{x, y}, d}) == spec_node_penalty(g, x, y, d), "node penalty");
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            for (ul nd : levels(n.d)) if (spec_edge(n, x, y, d, nx, ny, nd)) {
                double e = edge_penalty(&g, {{{x, y}, d}, {{nx, ny}, nd}});
                vp_check(e == spec_edge_penalty(g, x, y, d, i, nx, ny, nd), "edge penalty");
                vp_check(e == edge_penalty(&g, {{{nx, ny}, nd}, {{x, y}, d}}), "edge penalty is symmetric");
            }
        }
    }
}
static double low_pixel(const DisparityGraph& g, Dims n, ul x, ul y)
{
    double m = spec_node_penalty(g, x, y, 0);
    for (ul d = 1; d < n.d && x + d < n.w; ++d) { double p = spec_node_penalty(g, x, y, d); m = vp_ite_d(p < m, p, m); }
    return m;
}
static void minima()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    if (vp_param("PIXELS", 0)) {  // many levels: only the minimum of a pixel is affordable
        for (ul x : {0ul, n.w - n.d, n.w - 1}) for (ul y : {0ul, n.h - 1})
            vp_check(calculate_lowest_pixel_penalty(&g, {x, y}) == low_pixel(g, n, x, y), "lowest penalty of a pixel");
        return;
    }
    LowestPenalties lp(&g);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        vp_check(lowest_pixel_penalty(&lp, {x, y}) == low_pixel(g, n, x, y), "stored lowest penalty of a pixel");
        for (ul i = 0; i < 4; ++i) {
            ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            double m = 0; bool have = false;
            for (ul d = 0; d < n.d; ++d) for (ul nd = 0; nd < n.d; ++nd) if (spec_edge(n, x, y, d, nx, ny, nd)) {
                double p = spec_edge_penalty(g, x, y, d, i, nx, ny, nd);
                m = have ? vp_ite_d(p < m, p, m) : p; have = true;
            }
            vp_check(lowest_neighborhood_penalty_fast(&lp, {x, y}, {nx, ny}) == m, "stored lowest penalty of a neighbourhood");
        }
    }
}
static void construction()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp = bare_lowest(g, n, true);
    double t = threshold();
    ConstraintGraph c(&g, &lp, t);
    vp_check(c.nodes_availability.size() == n.w * n.h * n.d, "one entry per pixel and level");
    bool any = false;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
        bool a = is_node_available(&c, {{x, y}, d});
        any = vp_or(any, a);
        bool want = spec_node(n, x, y, d) ? spec_node_penalty(g, x, y, d) - lp.pixels[x + n.w * y] <= t : false;
        vp_check(a == want, "exactly the nodes within the threshold are available");
    }
    vp_check(check_nodes_left(&c) == any, "nodes are left exactly when one is available");
}
static void edges()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp = bare_lowest(g, n, false);
    ConstraintGraph c(&g, &lp, threshold());
    Flags a(n); a.fill(c, vp_param("ASEL", 4), 5);
    for (ul x : {0ul, 1ul, n.w / 2, n.w - 2, n.w - 1}) for (ul y : {0ul, n.h - 1}) for (ul d : levels(n.d)) for (ul i = 0; i < 4; ++i) {
        ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
        for (ul nd : levels(n.d)) {
            bool want = false;
            if (spec_edge(n, x, y, d, nx, ny, nd)) {
                double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
                want = vp_and(vp_and(a.has(x, y, d), a.has(nx, ny, nd)), spec_edge_penalty(g, x, y, d, i, nx, ny, nd) - low <= c.threshold);
            }
            vp_check(is_edge_available(&c, {{{x, y}, d}, {{nx, ny}, nd}}) == want, "an edge is available exactly when it exists, its nodes are available and it is within the threshold");
        }
    }
}
static void removal()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp = bare_lowest(g, n, false);
    ConstraintGraph c(&g, &lp, threshold());
    Flags a(n); a.fill(c, vp_param("ASEL", 4), vp_param("EVERY", 2));
    ul whole = vp_param("WHOLE", 0);
    for (ul x : {0ul, n.w / 2, n.w - 1}) for (ul y : {0ul, n.h - 1}) {
        std::vector<unsigned char> want(n.d);
        std::vector<ul> ds;
        if (whole) { for (ul d = 0; d < n.d; ++d) ds.push_back(d); } else ds = levels(n.d);
        bool any = false;
        for (ul d : ds) if (spec_node(n, x, y, d)) {
            bool w = vp_and(a.has(x, y, d), !flag_supported(c, a, x, y, d));
            want[d] = w; any = vp_or(any, w);
            vp_check(should_remove_node(&c, {{x, y}, d}) == w, "a node should be removed exactly when a neighbour offers no available edge");
        }
        if (!whole) continue;
        bool changed = csp_process_pixel(&c, {x, y});
        vp_check(changed == any, "processing a pixel reports whether it removed a node");
        Flags b(n); b.read(c);
        bool same = true;
        for (ul i = 0; i < n.w; ++i) for (ul j = 0; j < n.h; ++j) for (ul d = 0; d < n.d; ++d) if (spec_node(n, i, j, d)) {
            bool w = i == x && j == y ? vp_and(a.has(i, j, d), !(want[d] != 0)) : a.has(i, j, d);
            same = vp_and(same, b.has(i, j, d) == w);
        }
        vp_check(same, "processing a pixel removes exactly its unsupported nodes");
        a = b;
    }
}
static void best()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp = bare_lowest(g, n, false);
    ConstraintGraph c(&g, &lp, 1000000);
    ul px = vp_param("X", 0), py = vp_param("Y", 0), top = std::min(n.d, n.w - px);
    Flags a(n); a.fill(c, 0, 3);
    for (ul d = 0; d < top; ++d) a.set(c, px, py, d, mix(d + 5) % vp_param("EVERY", 2) == 0);
    ul k = vp_param("ASEL", 4);
    for (ul j = 0; j < k; ++j) a.bit(c, j, px, py, spread(j, k, top));
    ConstraintGraph* r = choose_best_node(&c, {px, py});
    Flags b(n); b.read(c);
    bool any = false, others = true;
    double low = 0; ul where = 0;
    for (ul d = top; d-- > 0;) {
        double p = spec_node_penalty(g, px, py, d);
        bool better = vp_and(a.has(px, py, d), vp_or(!any, p <= low));
        low = vp_ite_d(better, p, low); where = vp_ite_u64(better, d, where); any = vp_or(any, a.has(px, py, d));
    }
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) {
        if (!spec_node(n, x, y, d)) continue;
        if (x == px && y == py) vp_check(b.has(x, y, d) == vp_and(any, where == d), "the only node kept is the cheapest available one of least disparity");
        else others = vp_and(others, b.has(x, y, d) == a.has(x, y, d));
    }
    vp_check(others, "a node of another pixel is changed");
    vp_check(vp_and((r == &c) == any, vp_or(r == &c, r == nullptr)), "success is reported exactly if the pixel had an available node");
}
static void map()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp; lp.graph = &g; lp.pixels.resize(n.w * n.h); lp.neighborhoods.resize(4 * n.w * n.h);
    ConstraintGraph c(&g, &lp, -1e9);
    Flags a(n);
    std::vector<ul> label(n.w * n.h);
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        ul top = std::min(n.d, n.w - x), d = x % 3 == 0 ? top - 1 : mix(x + y * 31) % top;
        label[x + n.w * y] = d; a.set(c, x, y, d, true);
    }
    // at a few pixels: the label or the one before it, both, or none
    ul k = vp_param("ASEL", 4);
    bool unique = true;
    for (ul j = 0; j < k; ++j) {
        ul x = spread(j, k, n.w - 1), y = spread(k - 1 - j, k, n.h), d = label[x + n.w * y], e = d ? d - 1 : 1;
        a.bit(c, 2 * j, x, y, d); a.bit(c, 2 * j + 1, x, y, e);
        unique = vp_and(unique, a.has(x, y, d) != a.has(x, y, e));
        label[x + n.w * y] = vp_ite_u64(a.has(x, y, d), d, e);
    }
    bool thrown = false;
    try {
        Image r = build_disparity_map(&c);
        vp_check(unique, "a map is built although some pixel has no unique label");
        vp_check(vp_and(vp_and(r.width == n.w, r.height == n.h), vp_and(r.max_value == n.d, r.data.size() == n.w * n.h)), "the map has another size or maximum");
        bool ok = true;
        for (ul i = 0; i < n.w * n.h; ++i) ok = vp_and(ok, r.data[i] == label[i]);
        vp_check(ok, "an intensity is not the label of its pixel");
    } catch (std::logic_error&) { thrown = true; }
    if (thrown) { vp_check(!unique, "an error is raised although every pixel has exactly one label"); vp_reach("error"); }
}
// `r` is `want`, sorted and without repetitions
static void compare(const std::vector<double>& r, const std::vector<double>& want)
{
    ul m = want.size(), k = r.size();
    vp_check(k <= m, "more candidates than deviations");
    std::vector<double> v(m); std::vector<unsigned char> have(m);
    for (ul i = 0; i < m; ++i) if (i < k) { v[i] = r[i]; have[i] = 1; }
    bool order = true, all = true, only = true;
    for (ul i = 0; i + 1 < m; ++i) order = vp_and(order, vp_imp(have[i + 1] != 0, vp_and(have[i] != 0, v[i] < v[i + 1])));
    for (ul i = 0; i < m; ++i) {
        bool member = false, known = false;
        for (ul j = 0; j < m; ++j) { member = vp_or(member, vp_and(have[j] != 0, v[j] == want[i])); known = vp_or(known, v[i] == want[j]); }
        all = vp_and(all, member); only = vp_and(only, vp_imp(have[i] != 0, known));
    }
    vp_check(order, "the candidates are not strictly increasing"); vp_check(all, "a deviation is missing"); vp_check(only, "a candidate is no deviation of an existing node or edge");
    vp_observe("count", 0, k);
}
static void candidates()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    ul each = vp_param("EACH", 0);
    LowestPenalties lp = each ? bare_lowest(g, n, true) : LowestPenalties(&g);
    std::vector<double> want;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) want.push_back(spec_node_penalty(g, x, y, d) - lp.pixels[x + n.w * y]);
        if (each) { compare(fetch_pixel_available_penalties(&g, {x, y}, lp.pixels[x + n.w * y]), want); want.clear(); }
        for (ul i = 0; i < 4; i += 1 + !each) {
            ul nx, ny; if (!spec_neigh(n, x, y, i, nx, ny)) continue;
            double low = lp.neighborhoods[sp::indexing::neighborhood_index_fast(&g, {x, y}, i)];
            for (ul d = 0; d < n.d; ++d) for (ul nd = 0; nd < n.d; ++nd) if (spec_edge(n, x, y, d, nx, ny, nd)) want.push_back(spec_edge_penalty(g, x, y, d, i, nx, ny, nd) - low);
            if (each) { compare(fetch_edge_available_penalties(&g, {{{x, y}, 0}, {{nx, ny}, 0}}, low), want); want.clear(); }
        }
    }
    if (!each) compare(fetch_available_penalties(&lp), want);
}
// the least of many candidates with which the problem is solvable
static void minimal()
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp(&g);
    ul k = vp_param("K", 9);
    std::vector<double> list(k);
    double at = -(double)vp_param("BELOW", 2);
    for (ul i = 0; i < k; ++i) { at += 1 + mix(i) % 3; list[i] = at; }
    std::vector<unsigned char> solvable(k);
    for (ul i = 0; i < k; ++i) { ConstraintGraph c(&g, &lp, list[i]); solvable[i] = solve_csp(&c); }
    vp_assume(solvable[k - 1] != 0);
    double t = calculate_minimal_consistent_threshold(&lp, &g, list);
    bool member = false;
    for (ul i = 0; i < k; ++i) {
        member = vp_or(member, t == list[i]);
        vp_check(vp_imp(t == list[i], solvable[i] != 0), "the problem is not solvable with the chosen threshold");
        vp_check(vp_imp(list[i] < t, solvable[i] == 0), "a smaller candidate is solvable");
        vp_observe("chosen", i, t == list[i]);
    }
    vp_check(member, "the threshold is no candidate");
}
// solving (12, 13, 15) and labelling (19) of a larger problem
static void solving(ul mode)
{
    Dims n = dims();
    DisparityGraph g = large_graph(n);
    LowestPenalties lp(&g);
    ConstraintGraph c(&g, &lp, threshold());
    Flags a(n);
    if (vp_param("START", 1)) a.fill(c, vp_param("ASEL", 4), vp_param("EVERY", 1000));
    a.read(c);
    bool r = solve_csp(&c);
    if (mode == 19) {
        Flags before(n); before.read(c);
        ConstraintGraph* l = find_labeling(&c);
        vp_check(vp_or(l == &c, l == nullptr), "the result is neither the given graph nor null");
        if (l) {
            Flags b(n); b.read(c);
            bool ok = true;
            for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
                ul one = 0;
                for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) {
                    one += b.has(x, y, d);
                    ok = vp_and(ok, vp_imp(b.has(x, y, d), vp_and(before.has(x, y, d), flag_supported(c, b, x, y, d))));
                }
                vp_check(one == 1, "a pixel has not exactly one label");
            }
            vp_check(ok, "a label was not available or has no available edge to the label of a neighbour");
            vp_reach("labelled");
        }
        return;
    }
    Flags b(n); b.read(c);
    bool revived = false, supported = true, every = true, none = true;
    for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
        bool any = false;
        for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) {
            bool here = b.has(x, y, d);
            any = vp_or(any, here);
            revived = vp_or(revived, vp_and(here, !a.has(x, y, d)));
            supported = vp_and(supported, vp_imp(here, flag_supported(c, b, x, y, d)));
        }
        every = vp_and(every, any); none = vp_and(none, !any);
    }
    if (mode == 12) {
        vp_check(!revived, "a node is made available");
        // the greatest supporting set, by rounds over the whole problem; every supporting set lies in it
        Flags k = a;
        for (ul round = 0; round < vp_param("ROUNDS", 8); ++round) {
            Flags next = k;
            for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d))
                next.f[next.at(x, y, d)] = vp_and(k.has(x, y, d), flag_supported(c, k, x, y, d));
            k = next;
        }
        bool fixed = true, kept = true, full = true;
        for (ul x = 0; x < n.w; ++x) for (ul y = 0; y < n.h; ++y) {
            bool any = false;
            for (ul d = 0; d < n.d; ++d) if (spec_node(n, x, y, d)) {
                bool in = k.has(x, y, d);
                any = vp_or(any, in);
                fixed = vp_and(fixed, vp_imp(in, flag_supported(c, k, x, y, d)));
                kept = vp_and(kept, vp_imp(in, b.has(x, y, d)));
            }
            full = vp_and(full, any);
        }
        vp_assume(vp_and(fixed, full));     // rounds enough, and something to keep
        vp_check(kept, "no node of a mutually supporting set is removed");
        vp_check(r, "a problem with a supporting set is solvable");
        return;
    }
    if (mode == 15) {
        bool r2 = solve_csp(&c);
        Flags e(n); e.read(c);
        bool same = r2 == r;
        for (ul i = 0; i < e.f.size(); ++i) same = vp_and(same, e.f[i] == b.f[i]);
        vp_check(same, "solving again changes something");
        return;
    }
    vp_check(supported, "every remaining node has an available edge to every neighbour");
    vp_check(vp_or(none, every), "either every pixel keeps a node or none does");
    vp_check(r == !none, "the verdict is true exactly when a node remains");
}
extern "C" void vp_harness()
{
    ul mode = vp_param("MODE", 6);
    switch (mode) {
    case 6: penalties(); break;
    case 8: minima(); break;
    case 9: construction(); break;
    case 10: edges(); break;
    case 11: removal(); break;
    case 16: candidates(); break;
    case 17: minimal(); break;
    case 18: best(); break;
    case 20: map(); break;
    default: solving(mode);
    }
    vp_reach("witness");
}
