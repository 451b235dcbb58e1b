// Interface between harnesses and the symbolic engine (engine/vpsym) or the native
// replay library (harness/vp_native.cpp).  Nothing here belongs to the code under test.
#pragma once
typedef unsigned long vp_ulong;
extern "C" {
// symbolic inputs; "index" >= 0 names an element of an array of inputs
vp_ulong vp_u64(const char* name, long index, vp_ulong lo, vp_ulong hi);
double vp_int_double(const char* name, long index, long lo, long hi, int scale); // n * 2^scale, lo <= n <= hi
double vp_raw_double(const char* name, long index);                              // any bit pattern
void vp_assume(bool condition);
void vp_check(bool condition, const char* message);
void vp_reach(const char* marker);                       // must be reachable (vacuity guard)
void vp_observe(const char* name, long index, vp_ulong value);  // compared between engine and native run
vp_ulong vp_param(const char* name, vp_ulong def);       // concrete bound chosen by the driver
// combinators that do not branch
bool vp_and(bool, bool);
bool vp_or(bool, bool);
vp_ulong vp_ite_u64(bool, vp_ulong, vp_ulong);
double vp_ite_d(bool, double, double);
vp_ulong vp_upper(vp_ulong);                       // symbolic runs only: greatest value possible
double vp_peek_double(const double*, vp_ulong i, vp_ulong count);    // p[i] if i < count
void vp_poke_double(double*, vp_ulong i, vp_ulong count, double v);  // if i < count
vp_ulong vp_lo(vp_ulong);                          // symbolic runs only: bounds of a value that are easily known
vp_ulong vp_hi(vp_ulong);
bool vp_concrete(vp_ulong);
// rely/guarantee: object(ptr) is shared; a read yields lo | (anything & hi); a write must stay within
void vp_share(void* obj, const void* lo, const void* hi);
void vp_share_last(void* obj, vp_ulong* frozen); // *frozen becomes 1 at the write assumed to be the last one of all threads
void vp_share_size(vp_ulong bytes);               // native only
void vp_unshare(void* obj);
// is this the engine (true) or a native replay (false)
bool vp_symbolic_run();
}
static inline bool vp_not(bool a) { return !a; }
static inline bool vp_imp(bool a, bool b) { return vp_or(!a, b); }
static inline bool vp_iff(bool a, bool b) { return a == b; }
