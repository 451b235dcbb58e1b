#include "pgm.hpp"
// Texts with many numbers.  Every digit is symbolic, every separator is any blank, a comment precedes every COMMENT-th number.
// EXTRA 0: as many intensities as needed; 1: one more; 2: one less.
static ul number(char* t, ul& n, const char* name, ul i, ul digits, bool symbolic)
{
    ul v = 0;
    for (ul k = 0; k < digits; ++k) {
        ul d = symbolic ? vp_u64(name, 10 * i + k, 0, 9) : (i + k) % 7;
        v = v * 10 + d; t[n++] = (char)('0' + d);
    }
    return v;
}
static void separator(char* t, ul& n, ul i, ul comment)
{
    ul k = vp_u64("blank", i, 0, 5);
    t[n++] = (char)vp_ite_u64(k == 0, ' ', vp_ite_u64(k == 1, 9, vp_ite_u64(k == 2, 10, vp_ite_u64(k == 3, 11, vp_ite_u64(k == 4, 12, 13)))));
    if (comment && i % comment == 0) { const char* c = "# 12 comment 7#\n"; while (*c) t[n++] = *c++; }
}
static void plain(char* t, ul& n, ul v)
{
    char d[20]; ul k = 0;
    do d[k++] = '0' + v % 10; while (v /= 10);
    while (k) t[n++] = d[--k];
}
extern "C" void vp_harness()
{
    ul W = vp_param("W", 1), H = vp_param("H", 1), COMMENT = vp_param("COMMENT", 0), EXTRA = vp_param("EXTRA", 0), DIGITS = vp_param("DIGITS", 5), FREE = vp_param("FREE", 1);
    ul count = W * H + (EXTRA == 1) - (EXTRA == 2);
    char* t = new char[64 + (count + 6) * 24];
    ul n = 0, s = 0;
    separator(t, n, s++, COMMENT);
    t[n++] = 'P'; t[n++] = '2'; separator(t, n, s++, COMMENT);
    plain(t, n, W); separator(t, n, s++, COMMENT);
    plain(t, n, H); separator(t, n, s++, COMMENT);
    ul max = number(t, n, "max", 0, DIGITS, true); separator(t, n, s++, COMMENT);
    bool good = vp_and(max <= PGM_IO::MAX_VALUE_LIMIT, EXTRA == 0);
    ul* v = new ul[count + 1];
    for (ul i = 0; i < count; ++i) {
        v[i] = number(t, n, "digit", i, 1 + i % DIGITS, i % FREE == 0);
        good = vp_and(good, v[i] <= max);
        if (i + 1 < count || vp_param("END", 1)) separator(t, n, s++, COMMENT);
    }
    vp_assume(max > 0);
    if (!vp_param("BAD", 0)) vp_assume(vp_or(EXTRA != 0, good));
    auto before = std::make_shared<Image>(Image{1, 1, 1, {1}});
    PGM_IO io{before};
    InBuf buf(t, n);
    std::istream in(&buf);
    in >> io;
    vp_check(vp_imp(good, !in.fail()), "a correct image is rejected");
    vp_check(vp_imp(!in.fail(), good), "malformed data is accepted");
    if (in.fail()) { vp_check(io.get_image() == before, "a failed read replaces the image"); if (vp_param("BAD", 0)) vp_reach("rejected"); return; }
    auto image = io.get_image();
    vp_check(image != before && image != nullptr, "nothing is read");
    vp_check(vp_and(image->width == W, image->height == H), "another size is read");
    vp_check(image->max_value == max, "another maximum is read");
    vp_check(image->data.size() == W * H, "another number of pixels is read");
    for (ul i = 0; i < W * H; ++i) vp_check(image->data[i] == v[i], "another intensity is read");
    vp_observe("last", 0, image->data[W * H - 1]);
    vp_reach("witness");
}
