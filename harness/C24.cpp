#include "pgm.hpp"
// Writing an image.  The number of digits of every symbolic intensity is fixed by CASE, the digits are symbolic.
static ul number(const char* name, ul i, ul digits)
{
    ul v = 0;
    for (ul k = 0; k < digits; ++k) v = v * 10 + vp_u64(name, 10 * i + k, k == 0 && digits > 1 ? 1 : 0, 9);
    return v;
}
extern "C" void vp_harness()
{
    ul W = vp_param("W", 1), H = vp_param("H", 1), SYM = vp_param("SYM", 0), cases = vp_param("CASE", 0);
    auto image = std::make_shared<Image>(Image{W, H, vp_param("MAX", 65536), {}});
    for (ul i = 0; i < W * H; ++i) {
        ul v = i % 2 ? 65536 - i % 100 : 10000 + i * 7 % 50000;   // five digits
        if (i < SYM) { v = number("digit", i, 1 + cases % 5); cases /= 5; }
        vp_assume(v <= image->max_value);
        image->data.push_back(v);
    }
    ul cap = 32 + W * H * 7;
    char* text = new char[cap];
    OutBuf buf(text, cap);
    std::ostream out(&buf);
    PGM_IO io{image};
    out << io;
    vp_check(out.good(), "writing fails");
    ul n = buf.size(), pos = 0, column = 0, max_column = 0;
    // tokens, each compared with what it should be
    ul expect[4] = {0, W, H, image->max_value};
    ul tokens = 0;
    while (pos < n) {
        while (pos < n && spc(text[pos])) { column = text[pos] == '\n' ? 0 : column + 1; if (column > max_column) max_column = column; ++pos; }
        if (pos == n) break;
        ul start = pos, v = 0; bool num = true;
        while (pos < n && !spc(text[pos])) { num = vp_and(num, digit(text[pos])); v = v * 10 + (ul)(unsigned char)(text[pos] - '0'); ++pos; ++column; if (column > max_column) max_column = column; }
        if (tokens == 0) vp_check(pos - start == 2 && text[start] == 'P' && text[start + 1] == '2', "the magic is wrong");
        else {
            vp_check(num, "something that is not a number is written");
            if (tokens < 4) vp_check(v == expect[tokens], "the header is wrong");
            else if (tokens - 4 < W * H) vp_check(v == image->data[tokens - 4], "another intensity is written");
        }
        ++tokens;
    }
    vp_check(tokens == 4 + W * H, "another number of intensities is written");
    vp_check(max_column <= 70, "a line is longer than seventy characters");
    vp_observe("length", 0, n);
    vp_reach("witness");
}
