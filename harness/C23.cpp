#include "pgm.hpp"
extern "C" void vp_harness()
{
    char* text = new char[1024];
    ul n = make_text(text);
    Reference ref(text, n);
    vp_assume(ref.tokens <= Reference::MAXT);
    vp_assume(vp_and(ref.correct(), !ref.sticky));
    vp_assume(vp_and(vp_and(ref.width() > 0, ref.height() > 0), ref.max() > 0));
    PGM_IO io;
    InBuf buf(text, n);
    std::istream in(&buf);
    in >> io;
    vp_check(!in.fail(), "a correct image is rejected");
    auto image = io.get_image();
    vp_check(image != nullptr, "nothing is read");
    if (!image) return;
    vp_check(vp_and(image->width == ref.width(), image->height == ref.height()), "another size is read");
    vp_check(image->max_value == ref.max(), "another maximum is read");
    ul count = ref.tokens - 4;
    vp_check(image->data.size() == count, "another number of pixels is read");
    for (ul i = 0; i < Reference::MAXT - 4; ++i) if (i < count) {
        vp_check(image->data[i] == ref.value[5 + i], "another intensity is read");
        vp_observe("pixel", i, image->data[i]);
    }
    vp_reach("witness");
}
