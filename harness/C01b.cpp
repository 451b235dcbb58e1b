#include "common.hpp"
// image_valid for large images: symbolic maximum and symbolic intensities at positions where counters of 8 and 16 bits would wrap around.
extern "C" void vp_harness()
{
    ul W = vp_param("W", 300), H = vp_param("H", 220), N = W * H, any = ~0ul;
    Image im{W, H, 0, std::vector<ul>(N)};
    ul m = im.max_value = vp_u64("max", -1, 0, any);
    const ul at[] = {0, 1, 127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, W - 1, W, N / 2, N - W, N - 2, N - 1};
    bool want = m > 0;
    for (ul i : at) if (i < N) { ul v = vp_u64("data", i, 0, any); im.data[i] = v; want = vp_and(want, v <= m); }
    bool got = sp::image::image_valid(&im);
    vp_check(got == want, "image_valid agrees with the definition");
    vp_observe("valid", 0, got);
    if (got) vp_reach("witness"); else vp_reach("invalid image");
}
