// Native side of the harness interface: replays one assignment found by the solver.
// VP_CEX: file of "name value" lines; VP_PARAMS: "K=V K=V"; VP_OBSERVE: file for observations.
#include "vp.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <unistd.h>
static std::map<std::string, unsigned long> vars, params;
static std::string obs;
static bool loaded = false;
static void load() {
    if (loaded) return;
    loaded = true;
    if (const char* f = getenv("VP_CEX")) { std::ifstream in(f); std::string n; unsigned long v; while (in >> n >> v) vars[n] = v; }
    if (const char* p = getenv("VP_PARAMS")) {
        std::istringstream in(p); std::string t;
        while (in >> t) { size_t q = t.find('='); params[t.substr(0, q)] = strtoul(t.c_str() + q + 1, nullptr, 10); }
    }
}
static void flushObs() { if (const char* f = getenv("VP_OBSERVE")) { std::ofstream o(f); o << obs; } }
static std::string nm(const char* n, long i) { std::string s = n; if (i >= 0) s += "[" + std::to_string(i) + "]"; return s; }
[[noreturn]] static void quit(int c) { fflush(stdout); fflush(stderr); flushObs(); _exit(c); }
extern "C" {
vp_ulong vp_u64(const char* n, long i, vp_ulong lo, vp_ulong) { load(); auto it = vars.find(nm(n, i)); return it == vars.end() ? lo : it->second; }
double vp_int_double(const char* n, long i, long lo, long, int sc) {
    load(); auto it = vars.find(nm(n, i)); long v = lo + (it == vars.end() ? 0 : (long)it->second); return std::ldexp((double)v, sc); }
double vp_raw_double(const char* n, long i) { load(); auto it = vars.find(nm(n, i)); unsigned long b = it == vars.end() ? 0 : it->second; double d; memcpy(&d, &b, 8); return d; }
void vp_assume(bool c) { if (!c) { fprintf(stderr, "replay: assumption not met\n"); quit(77); } }
void vp_check(bool c, const char* m) { if (!c) { fprintf(stderr, "replay: check failed: %s\n", m); quit(99); } }
void vp_reach(const char*) {}
void vp_observe(const char* n, long i, vp_ulong v) { obs += std::string(n) + "[" + std::to_string(i) + "] " + std::to_string(v) + "\n"; }
vp_ulong vp_param(const char* n, vp_ulong d) { load(); auto it = params.find(n); return it == params.end() ? d : it->second; }
bool vp_and(bool a, bool b) { return a && b; }
bool vp_or(bool a, bool b) { return a || b; }
vp_ulong vp_ite_u64(bool c, vp_ulong a, vp_ulong b) { return c ? a : b; }
double vp_ite_d(bool c, double a, double b) { return c ? a : b; }
bool vp_concrete(vp_ulong) { return true; }
bool vp_symbolic_run() { return false; }
void vp_harness();
}
#ifndef VP_NO_SHARE_STUBS
extern "C" {
void vp_share(void*, const void*, const void*) {}
void vp_share_last(void*, vp_ulong*) {}
void vp_share_size(vp_ulong) {}
void vp_unshare(void*) {}
}
#endif
#ifndef VP_NO_MAIN
int main() {
    load();
    try { vp_harness(); }
    catch (std::exception& e) { fprintf(stderr, "replay: exception leaves the harness: %s\n", e.what()); quit(98); }
    catch (...) { fprintf(stderr, "replay: exception leaves the harness\n"); quit(98); }
    flushObs();
    return 0;
}
#endif
