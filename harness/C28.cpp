// The command line tool: CASE selects the arguments and the files, the intensities are symbolic.
#include "common.hpp"
#include "main_env.hpp"
#include <pgm_io.hpp>
#ifdef USE_OPENCL
#include <gpu_csp.hpp>
#endif
using sp::image::PGM_IO;
int tool_main(int, char**);
struct Scenario {
    const char* args;      // separated by blanks; "~" stands for an empty argument, "?" for any letter or digit
    bool good;             // is a map to be written
    ul levels;             // 0: width of the left image
    double cleanness, smoothness;
    int files;             // -1: the command line fails if OpenCL is not built in; 9: no labelling is found, 10: nothing is consistent; 0: fine, 1: no left file, 2: no right file, 3: output cannot be opened, 4: left malformed, 5: right malformed, 6: other width on the right, 7: other maximum on the right, 8: an intensity above the maximum
};
static const Scenario SCENARIOS[] = {
    {"-l L -r R -o O", true, 0, 1, 1, 0},
    {"--left-image L --right-image R --output-image O", true, 0, 1, 1, 0},
    {"-r R -o O -l L -d 2", true, 2, 1, 1, 0},
    {"-l L -r R -o O --disparity-levels 3", true, 3, 1, 1, 0},
    {"-l L -r R -o O -c 2", true, 0, 2, 1, 0},
    {"-l L -r R -o O -s 2", true, 0, 1, 2, 0},
    {"-l L -r R -o O -c 0.5", true, 0, 0.5, 1, 0},
    {"-l L -r R -o O -s 0.25 -d 2", true, 2, 1, 0.25, 0},
    {"-l L -r R -o O --cleanness=1.5 --smoothness=0.75 --disparity-levels=2", true, 2, 1.5, 0.75, 0},
    {"-l L -r R -o O -c 0", true, 0, 0, 1, 0},
    {"-l L -r R -o O -s 0", true, 0, 1, 0, 0},
    {"-l L -r R -o O -c 25e-2 -d 2", true, 2, 0.25, 1, 0},
    {"-l L -r R -o O -p omp", true, 0, 1, 1, 0},
    {"-l L -r R -o O --parallel OpenMP -d 2", true, 2, 1, 1, 0},
    {"-l L -r R -o O -p CPU -d 2", true, 2, 1, 1, 0},
    {"-l L -r R -o O -d 3 -p cl", true, 3, 1, 1, -1},
    {"-l L -r R -o O --parallel OpenCL -c 3", true, 0, 3, 1, -1},
    {"-l L -r R -o O -p cuda", false, 0, 0, 0, 0},
    {"-l L -r R -o O -p gpu", false, 0, 0, 0, 0},
    {"-l L -r R -o O -c 0 -s 0", false, 0, 0, 0, 0},
    {"-l L -r R -o O --cleanness=-1", false, 0, 0, 0, 0},
    {"-l L -r R -o O --smoothness=-0.5", false, 0, 0, 0, 0},
    {"-l L -r R -o O -c abc", false, 0, 0, 0, 0},
    {"-l L -r R -o O -s 2x", false, 0, 0, 0, 0},
    {"-l L -r R -o O -c 1,5", false, 0, 0, 0, 0},
    {"-l L -r R -o O -s ~", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 0", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 1", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 4", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d two", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 2x", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 2.5", false, 0, 0, 0, 0},
    {"-l L -r R -o O --disparity-levels=-18446744073709551613", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d 18446744073709551618", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d ~", false, 0, 0, 0, 0},
    {"-l L -r R", false, 0, 0, 0, 0},
    {"-l L -o O", false, 0, 0, 0, 0},
    {"-r R -o O", false, 0, 0, 0, 0},
    {"-o O", false, 0, 0, 0, 0},
    {"", false, 0, 0, 0, 0},
    {"-l L -r R -o O -l L", false, 0, 0, 0, 0},
    {"-l L -r R -o O -x 3", false, 0, 0, 0, 0},
    {"-l L -r R -o O extra", false, 0, 0, 0, 0},
    {"-l L -r R -o", false, 0, 0, 0, 0},
    {"-l L -r R -o O", false, 0, 0, 0, 1},
    {"-l L -r R -o O", false, 0, 0, 0, 2},
    {"-l L -r R -o O", false, 0, 0, 0, 3},
    {"-l L -r R -o O", false, 0, 0, 0, 4},
    {"-l L -r R -o O", false, 0, 0, 0, 5},
    {"-l L -r R -o O", false, 0, 0, 0, 6},
    {"-l L -r R -o O", false, 0, 0, 0, 7},
    {"-l L -r R -o O", false, 0, 0, 0, 8},
    {"-l L -r R -o O", false, 0, 0, 0, 9},
    {"-l L -r R -o O", false, 0, 0, 0, 10},
    {"-l L -r R -o O -p cl", false, 0, 0, 0, 9},
    {"-l L -r R -o O -p ~", false, 0, 0, 0, 0},
    {"-l L -r R -o O -p ???", true, 0, 1, 1, 0},
    {"-l L -r R -o O -p ??", true, 0, 1, 1, -2},
    {"-l L -r R -o O -d ?", false, 0, 0, 0, 0},
    {"-l L -r R -o O -d ??", false, 0, 0, 0, 0},
    {"-l L -r R -o O -c ??", false, 0, 1, 1, 0},
};
#ifdef VP_STUB
extern "C" { extern int vp_no_labeling, vp_no_threshold; extern const Image *vp_left, *vp_right; }
#endif
static const int REAL[] = {0, 2, 7, 13};  // the scenarios run with the real search
static VpFile FILES[3];
VpFile* vp_file(const char* n)
{
    for (VpFile& f : FILES) if (n[0] == f.name[0] && !n[1]) return &f;
    return nullptr;
}
struct Null : std::streambuf { std::streamsize xsputn(const char*, std::streamsize n) override { return n; } int overflow(int c) override { return c == -1 ? 0 : c; } };
namespace std { static ostream* console; ostream& vp_console() { return *console; } }
static char letter(ul k)
{
    char v = vp_u64("char", k, '0', 'z');
    vp_assume(vp_or(v <= '9', vp_or(vp_and('A' <= v, v <= 'Z'), 'a' <= v)));
    return v;
}
static ul plain(char* t, ul n, ul v) { char d[20]; ul k = 0; do d[k++] = '0' + v % 10; while (v /= 10); while (k) t[n++] = d[--k]; return n; }
static void image_text(VpFile& f, const Image& im, bool bad)
{
    char* t = new char[600]; ul n = 0;
    t[n++] = 'P'; t[n++] = '2'; t[n++] = '\n';
    n = plain(t, n, im.width); t[n++] = ' '; n = plain(t, n, im.height); t[n++] = '\n'; n = plain(t, n, im.max_value); t[n++] = '\n';
    for (ul i = 0; i < im.data.size() - bad; ++i) { t[n++] = '0' + im.data[i]; t[n++] = '\n'; }
    f.text = t; f.size = n; f.opens = true;
}
extern "C" void vp_harness()
{
#ifdef VP_STUB
    const Scenario& s = SCENARIOS[vp_param("CASE", 0)];
    vp_no_labeling = s.files == 9; vp_no_threshold = s.files == 10;
#else
    const Scenario& s = SCENARIOS[REAL[vp_param("CASE", 0)]];
#endif
    bool good = s.good;
#ifndef USE_OPENCL
    if (s.files == -1) good = false;
#endif
    ul W = vp_param("W", 3), H = vp_param("H", 1), MAX = vp_param("MAX", 1);
    Image left = sym_image("left", W, H, MAX), right = sym_image("right", W, H, MAX);
    if (s.files == 6) { right.width = W - 1; right.data = std::vector<ul>((W - 1) * H); }
    if (s.files == 7) right.max_value = MAX + 1;
    if (s.files == 8) left.data[0] = MAX + 1;
#ifdef VP_STUB
    vp_left = &left; vp_right = &right;
#endif
    FILES[0].name = "L"; FILES[1].name = "R"; FILES[2].name = "O";
    image_text(FILES[0], left, s.files == 4);
    image_text(FILES[1], right, s.files == 5);
    FILES[2].text = new char[600]; FILES[2].capacity = 600; FILES[2].opens = true;
    if (s.files >= 1 && s.files <= 3) FILES[s.files - 1].opens = false;
    Null nb; std::ostream con(&nb); std::console = &con;

    char* argv[32]; int argc = 0;
    char* copy = new char[400]; ul c = 0;
    char* free_at[4]; ul frees = 0;
    argv[argc++] = (char*)"stereo_parallel";
    for (const char* a = s.args; *a;) {
        argv[argc++] = copy + c;
        for (; *a && *a != ' '; ++a) if (*a == '?') { free_at[frees] = copy + c; copy[c++] = letter(frees++); } else if (*a != '~') copy[c++] = *a;
        copy[c++] = 0;
        while (*a == ' ') ++a;
    }
    argv[argc] = nullptr;
    if (frees) {
        const char* f = free_at[0]; char option = f[-2];
        if (option == 'p') {
            auto is = [&](const char* w) { bool r = true; for (ul i = 0; i < frees; ++i) r = vp_and(r, vp_or(f[i] == w[i], f[i] == w[i] - 32)); return r; };
            good = frees == 3 ? vp_or(is("cpu"), is("omp")) : is("cl");
#ifndef USE_OPENCL
            if (frees == 2) good = false;
#endif
        } else if (option == 'd') {   // no number
            vp_assume(f[0] > '9');
        } else {                      // a weight of one digit and something else
            vp_assume(vp_and(vp_and('0' <= f[0], f[0] <= '9'), vp_or(f[1] < '0', f[1] > '9')));
            good = false;
        }
    }
    int status = tool_main(argc, argv);
    vp_observe("status", 0, status);
    if (!good) {
        vp_check(status != 0, "an unusable option or input is reported as success");
        vp_check(FILES[2].size == 0, "a map is written although an option or input is unusable");
        vp_reach("refused"); vp_reach("witness");
        return;
    }
    vp_check(status == 0, "a usable command line is refused");
    if (status != 0) return;
    // the problem the options describe, solved through the library
    DisparityGraph g(left, right, s.levels ? s.levels : W, s.cleanness, s.smoothness);
    LowestPenalties lp(&g);
    double t = sp::labeling::finder::calculate_minimal_consistent_threshold(&lp, &g, sp::labeling::finder::fetch_available_penalties(&lp));
    ConstraintGraph cg(&g, &lp, t);
    sp::graph::constraint::solve_csp(&cg);
#ifdef USE_OPENCL
    auto* l = s.files < 0 ? sp::labeling::finder::find_labeling_cl(&cg) : sp::labeling::finder::find_labeling(&cg);
#else
    auto* l = sp::labeling::finder::find_labeling(&cg);
#endif
    vp_assume(l != nullptr);
    auto map = std::make_shared<Image>(sp::labeling::finder::build_disparity_map(&cg));
    char* text = new char[600];
    VpFile f{"expected", text, 0, 600, true, 0};
    std::VpOut b; b.set(&f);
    std::ostream out(&b);
    out << PGM_IO{map};
    b.pubsync();
    vp_check(FILES[2].size == f.size, "the map written is not the one of the problem described");
    for (ul i = 0; i < f.size && i < FILES[2].size; ++i) vp_check(FILES[2].text[i] == text[i], "the map written is not the one of the problem described");
    vp_observe("last", 0, f.size > 2 ? text[f.size - 2] : 0);
    vp_reach("witness"); vp_reach("refused");
}
