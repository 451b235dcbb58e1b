#include "common.hpp"
// image_valid for every image up to W x H pixels: every intensity, maximum and dimension symbolic.
extern "C" void vp_harness()
{
    ul W = vp_param("W", 3), H = vp_param("H", 3);
    Image im{0, 0, 0, std::vector<ul>(W * H)};
    ul any = ~0ul;
    im.width = vp_u64("width", -1, 0, W);
    im.height = vp_u64("height", -1, 0, H);
    im.max_value = vp_u64("max", -1, 0, any);
    std::vector<ul> keep(W * H);
    for (ul i = 0; i < W * H; ++i) { keep[i] = vp_u64("data", i, 0, any); im.data[i] = keep[i]; }
    ul w = im.width, h = im.height, m = im.max_value;
    bool got = sp::image::image_valid(&im);
    bool want = vp_and(vp_and(m > 0, w > 0), h > 0);
    for (ul i = 0; i < W * H; ++i) want = vp_and(want, vp_imp(i < w * h, keep[i] <= m));
    vp_check(got == want, "image_valid agrees with the definition");
    vp_check(vp_and(vp_and(im.width == w, im.height == h), im.max_value == m), "image_valid does not modify the image");
    vp_observe("valid", 0, got);
    if (got) vp_reach("witness"); else vp_reach("invalid image");
}
