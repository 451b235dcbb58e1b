#include "pgm.hpp"
// Writing and reading back.  The number of digits of the symbolic numbers is fixed by CASE.
static ul number(const char* name, ul i, ul digits)
{
    ul v = 0;
    for (ul k = 0; k < digits; ++k) v = v * 10 + vp_u64(name, 10 * i + k, k == 0 && digits > 1 ? 1 : 0, 9);
    return v;
}
extern "C" void vp_harness()
{
    ul W = vp_param("W", 1), H = vp_param("H", 1), SYM = vp_param("SYM", 0), cases = vp_param("CASE", 0), DIGITS = vp_param("DIGITS", 5);
    ul max = number("max", 0, DIGITS);
    vp_assume(vp_and(max > 0, max <= PGM_IO::MAX_VALUE_LIMIT));
    auto image = std::make_shared<Image>(Image{W, H, max, {}});
    for (ul i = 0; i < W * H; ++i) {
        ul v = i % 7;
        if (DIGITS > 1 && i % 2) v = 9 - v;
        if (DIGITS == 1) v = 0;
        if (i < SYM) { v = number("digit", i, 1 + cases % DIGITS); cases /= DIGITS; }
        vp_assume(v <= max);
        image->data.push_back(v);
    }
    ul cap = 40 + W * H * 7;
    char* text = new char[cap];
    OutBuf obuf(text, cap);
    std::ostream out(&obuf);
    PGM_IO writer{image}, reader;
    out << writer;
    InBuf ibuf(text, obuf.size());
    std::istream in(&ibuf);
    in >> reader;
    vp_check(!in.fail(), "what was written is rejected");
    auto back = reader.get_image();
    vp_check(back != nullptr, "nothing is read back");
    if (!back) return;
    vp_check(vp_and(back->width == W, back->height == H), "another size is read back");
    vp_check(back->max_value == max, "another maximum is read back");
    vp_check(back->data.size() == W * H, "another number of intensities is read back");
    for (ul i = 0; i < W * H && i < back->data.size(); ++i) vp_check(back->data[i] == image->data[i], "another intensity is read back");
    vp_observe("max", 0, back->max_value);
    vp_observe("last", 0, back->data[W * H - 1]);
    vp_reach("witness");
}
