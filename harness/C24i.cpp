#include "pgm.hpp"
// An absent image and images that are not valid: nothing is written.
extern "C" void vp_harness()
{
    ul W = vp_param("W", 2), H = vp_param("H", 1), KIND = vp_param("CASE", 0);
    auto image = std::make_shared<Image>(Image{W, H, vp_u64("max", 0, 0, 3), {}});
    bool valid = image->max_value > 0;
    for (ul i = 0; i < W * H; ++i) { image->data.push_back(vp_u64("pixel", i, 0, 5)); valid = vp_and(valid, image->data[i] <= image->max_value); }
    if (KIND == 0) vp_assume(!valid);
    if (KIND == 1) image->width = 0;
    if (KIND == 2) image->height = 0;
    if (KIND == 3) image = nullptr;
    char* text = new char[64];
    OutBuf buf(text, 64);
    std::ostream out(&buf);
    PGM_IO io{image};
    out << io;
    vp_check(buf.size() == 0, "something is written although there is no valid image");
    vp_check(out.good(), "writing nothing fails");
    vp_reach("witness");
}
