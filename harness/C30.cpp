// What lib/compile_cl.cpp hands to the compiler of the device is the text of the listed files, byte by byte and in the listed
// order, together with the language version and the folder of the headers.
#include "main_env.hpp"
#include "vp.h"
#include <boost/compute.hpp>
#include <string>
#include <vector>
namespace gpu {
boost::compute::program create_program(const std::string&, const boost::compute::context&);
boost::compute::program create_program(const std::vector<std::string>&, const boost::compute::context&);
std::string concatenate_files(const std::vector<std::string>&);
}
typedef unsigned long ul;
static VpFile files[3] = {{"lib/a.cpp", nullptr, 0, 0, true, 0}, {"lib/b.cl", nullptr, 0, 0, true, 0}, {"c", nullptr, 0, 0, true, 0}};
static ul unknown;
VpFile* vp_file(const char* n) { for (auto& f : files) if (std::string(f.name) == n) return &f; ++unknown; return nullptr; }
std::ostream& std::vp_console() { static VpOut b; static ostream o(&b); return o; }
std::string vp_file_text(const std::string& n) { VpFile* f = vp_file(n.c_str()); return f ? std::string(f->text, f->size) : std::string(); }
static ul built;
static std::string source, options;
void vp_program(const std::string& s, const std::string& o) { ++built; source = s; options = o; }
static bool has(const char* what)
{
    // as a word, "-I x" and "-Ix" being the same
    std::string o = " " + options + " ", t;
    for (char c : o) t += c;
    for (ul p; (p = t.find("-I ")) != std::string::npos; ) t.erase(p + 2, 1);
    return t.find(std::string(" ") + what + " ") != std::string::npos || t.find(std::string(" ") + what + "/ ") != std::string::npos;
}
extern "C" void vp_harness()
{
    ul count = vp_param("FILES", 2), size[3], list[4], mode = vp_param("MODE", 0), which = vp_param("CASE", 0);   // CASE: the list of files in base 3, then their sizes
    std::vector<std::string> names;
    std::string expected;
    for (ul k = 0; k < count; ++k)
    {
        list[k] = which % 3; which /= 3;
        names.push_back(files[list[k]].name);
    }
    static const ul sizes[][3] = {{2, 0, 3}, {0, 3, 1}, {3, 1, 0}};
    for (ul i = 0; i < 3; ++i)
    {
        size[i] = sizes[which % 3][i] + vp_param("MORE", 0);
        files[i].text = new char[size[i] + 1]; files[i].size = size[i];
        for (ul k = 0; k < size[i]; ++k) files[i].text[k] = (char)vp_u64("byte", i * 16 + k, 0, 255);
    }
    ul total = 0;
    for (ul k = 0; k < count; ++k) total += size[list[k]];
    boost::compute::context context;
    if (mode == 0) source = gpu::concatenate_files(names);
    else if (mode == 1) gpu::create_program(names, context);
    else gpu::create_program(names[0], context);
    vp_check(source.size() == total, "the text has another length than the files together");
    vp_check(unknown == 0, "a file that is not listed is read");
    bool r = true;
    for (ul k = 0, at = 0; k < count; at += size[list[k]], ++k)
        for (ul i = 0; i < size[list[k]]; ++i) r = vp_and(r, source[at + i] == files[list[k]].text[i]);
    vp_check(r, "the text is not that of the files in the order of the list");
    if (mode)
    {
        vp_check(built == 1, "not exactly one program is built");
        vp_check(has("-cl-std=CL1.2"), "the language version is not handed to the compiler");
        vp_check(has("-I./include"), "the folder of the headers is not handed to the compiler");
    }
    vp_observe("length", 0, source.size());
    vp_reach("witness");
}
