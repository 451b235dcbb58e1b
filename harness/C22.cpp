#include "pgm.hpp"
extern "C" void vp_harness()
{
    char* text = new char[1024];
    ul n = make_text(text);
    Reference ref(text, n);
    bool correct = ref.correct();
    vp_assume(ref.tokens <= Reference::MAXT);
    auto before = std::make_shared<Image>(Image{1, 1, 1, {1}});
    PGM_IO io{before};
    InBuf buf(text, n);
    std::istream in(&buf);
    in >> io;
    bool accepted = !in.fail();
    if (accepted) {
        auto image = io.get_image();
        vp_check(vp_or(correct, ref.sticky), "malformed data is accepted");
        vp_check(image != nullptr, "nothing is read although the stream is good");
        vp_check(image != before, "the image is not replaced although the stream is good");
        vp_check(image->data.size() == image->width * image->height, "the image has another number of pixels than its size tells");
    } else vp_check(io.get_image() == before, "a failed read replaces the image");
    vp_observe("accepted", 0, accepted);
    if (accepted) { if (vp_param("ACC", 1)) vp_reach("witness"); } else { if (vp_param("REJ", 1)) vp_reach("rejected"); }
}
