#include "common.hpp"
using namespace sp::indexing;
extern "C" void vp_harness()
{
    ul top = ~0ul - 1;
    Pixel p{vp_u64("x", -1, 0, top), vp_u64("y", -1, 0, top)}, q{vp_u64("x2", -1, 0, top), vp_u64("y2", -1, 0, top)}, r{vp_u64("x3", -1, 0, top), vp_u64("y3", -1, 0, top)};
    ul k = neighbor_index(p, q), m = neighbor_index(p, r);
    bool right = vp_and(q.y == p.y, q.x == p.x + 1), left = vp_and(q.y == p.y, q.x + 1 == p.x);
    bool down = vp_and(q.x == p.x, q.y == p.y + 1), up = vp_and(q.x == p.x, q.y + 1 == p.y);
    bool touch = vp_or(vp_or(right, left), vp_or(down, up));
    vp_check(vp_iff(k < 4, touch), "a neighbour number exactly for touching pixels");
    vp_check(k <= 4, "otherwise the number is the neighbour count");
    vp_check(vp_and(vp_imp(right, k == 0), vp_and(vp_imp(left, k == 1), vp_and(vp_imp(down, k == 2), vp_imp(up, k == 3)))), "documented numbering");
    vp_check(vp_imp(vp_and(k < 4, k == m), vp_and(q.x == r.x, q.y == r.y)), "different neighbours have different numbers");
    ul i = vp_u64("i", -1, 0, 3);
    vp_assume(vp_imp(i == 1, p.x > 0)); vp_assume(vp_imp(i == 3, p.y > 0));
    Pixel s = neighbor_by_index(p, i);
    vp_check(neighbor_index(p, s) == i, "the neighbour found from a number has that number");
    vp_check(vp_imp(k < 4, vp_and(neighbor_by_index(p, k).x == q.x, neighbor_by_index(p, k).y == q.y)), "the number of a neighbour leads back to it");
    vp_check((neighbor_index(q, p) < 4) == (k < 4), "touching is symmetric");
    vp_observe("k", 0, k);
    if (touch) vp_reach("witness"); else vp_reach("not touching");
}
