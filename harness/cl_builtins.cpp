// The OpenCL built-in functions a device program may call, for one work-item at a time.
#include "vp.h"
typedef unsigned long ul; typedef unsigned u;
ul vp_global_id = 0, vp_global_size = 1;     // set by whoever runs a kernel
#define B(ret, name, mangled, ...) ret name(__VA_ARGS__) asm(mangled); ret name(__VA_ARGS__)
B(float, cf_m, "_Z13convert_floatm", ul v) { return (float)v; }
B(float, cf_l, "_Z13convert_floatl", long v) { return (float)v; }
B(float, cf_j, "_Z13convert_floatj", u v) { return (float)v; }
B(float, cf_i, "_Z13convert_floati", int v) { return (float)v; }
B(float, cv_float_c, "_Z13convert_floatc", signed char v) { return (float)v; }
B(float, cv_float_h, "_Z13convert_floath", unsigned char v) { return (float)v; }
B(float, cv_float_s, "_Z13convert_floats", short v) { return (float)v; }
B(float, cv_float_t, "_Z13convert_floatt", unsigned short v) { return (float)v; }
B(signed char, cv_char_c, "_Z12convert_charc", signed char v) { return (signed char)v; }
B(signed char, cv_char_h, "_Z12convert_charh", unsigned char v) { return (signed char)v; }
B(signed char, cv_char_s, "_Z12convert_chars", short v) { return (signed char)v; }
B(signed char, cv_char_t, "_Z12convert_chart", unsigned short v) { return (signed char)v; }
B(signed char, cv_char_i, "_Z12convert_chari", int v) { return (signed char)v; }
B(signed char, cv_char_j, "_Z12convert_charj", unsigned v) { return (signed char)v; }
B(signed char, cv_char_l, "_Z12convert_charl", long v) { return (signed char)v; }
B(signed char, cv_char_m, "_Z12convert_charm", unsigned long v) { return (signed char)v; }
B(signed char, cv_char_f, "_Z12convert_charf", float v) { return (signed char)v; }
B(unsigned char, cv_uchar_c, "_Z13convert_ucharc", signed char v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_h, "_Z13convert_ucharh", unsigned char v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_s, "_Z13convert_uchars", short v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_t, "_Z13convert_uchart", unsigned short v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_i, "_Z13convert_uchari", int v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_j, "_Z13convert_ucharj", unsigned v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_l, "_Z13convert_ucharl", long v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_m, "_Z13convert_ucharm", unsigned long v) { return (unsigned char)v; }
B(unsigned char, cv_uchar_f, "_Z13convert_ucharf", float v) { return (unsigned char)v; }
B(short, cv_short_c, "_Z13convert_shortc", signed char v) { return (short)v; }
B(short, cv_short_h, "_Z13convert_shorth", unsigned char v) { return (short)v; }
B(short, cv_short_s, "_Z13convert_shorts", short v) { return (short)v; }
B(short, cv_short_t, "_Z13convert_shortt", unsigned short v) { return (short)v; }
B(short, cv_short_i, "_Z13convert_shorti", int v) { return (short)v; }
B(short, cv_short_j, "_Z13convert_shortj", unsigned v) { return (short)v; }
B(short, cv_short_l, "_Z13convert_shortl", long v) { return (short)v; }
B(short, cv_short_m, "_Z13convert_shortm", unsigned long v) { return (short)v; }
B(short, cv_short_f, "_Z13convert_shortf", float v) { return (short)v; }
B(unsigned short, cv_ushort_c, "_Z14convert_ushortc", signed char v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_h, "_Z14convert_ushorth", unsigned char v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_s, "_Z14convert_ushorts", short v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_t, "_Z14convert_ushortt", unsigned short v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_i, "_Z14convert_ushorti", int v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_j, "_Z14convert_ushortj", unsigned v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_l, "_Z14convert_ushortl", long v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_m, "_Z14convert_ushortm", unsigned long v) { return (unsigned short)v; }
B(unsigned short, cv_ushort_f, "_Z14convert_ushortf", float v) { return (unsigned short)v; }
B(int, cv_int_c, "_Z11convert_intc", signed char v) { return (int)v; }
B(int, cv_int_h, "_Z11convert_inth", unsigned char v) { return (int)v; }
B(int, cv_int_s, "_Z11convert_ints", short v) { return (int)v; }
B(int, cv_int_t, "_Z11convert_intt", unsigned short v) { return (int)v; }
B(int, cv_int_i, "_Z11convert_inti", int v) { return (int)v; }
B(int, cv_int_j, "_Z11convert_intj", unsigned v) { return (int)v; }
B(int, cv_int_l, "_Z11convert_intl", long v) { return (int)v; }
B(int, cv_int_f, "_Z11convert_intf", float v) { return (int)v; }
B(unsigned, cv_uint_c, "_Z12convert_uintc", signed char v) { return (unsigned)v; }
B(unsigned, cv_uint_h, "_Z12convert_uinth", unsigned char v) { return (unsigned)v; }
B(unsigned, cv_uint_s, "_Z12convert_uints", short v) { return (unsigned)v; }
B(unsigned, cv_uint_t, "_Z12convert_uintt", unsigned short v) { return (unsigned)v; }
B(unsigned, cv_uint_i, "_Z12convert_uinti", int v) { return (unsigned)v; }
B(unsigned, cv_uint_j, "_Z12convert_uintj", unsigned v) { return (unsigned)v; }
B(unsigned, cv_uint_l, "_Z12convert_uintl", long v) { return (unsigned)v; }
B(unsigned, cv_uint_f, "_Z12convert_uintf", float v) { return (unsigned)v; }
B(long, cv_long_c, "_Z12convert_longc", signed char v) { return (long)v; }
B(long, cv_long_h, "_Z12convert_longh", unsigned char v) { return (long)v; }
B(long, cv_long_s, "_Z12convert_longs", short v) { return (long)v; }
B(long, cv_long_t, "_Z12convert_longt", unsigned short v) { return (long)v; }
B(long, cv_long_i, "_Z12convert_longi", int v) { return (long)v; }
B(long, cv_long_j, "_Z12convert_longj", unsigned v) { return (long)v; }
B(long, cv_long_l, "_Z12convert_longl", long v) { return (long)v; }
B(long, cv_long_m, "_Z12convert_longm", unsigned long v) { return (long)v; }
B(long, cv_long_f, "_Z12convert_longf", float v) { return (long)v; }
B(unsigned long, cv_ulong_c, "_Z13convert_ulongc", signed char v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_h, "_Z13convert_ulongh", unsigned char v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_s, "_Z13convert_ulongs", short v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_t, "_Z13convert_ulongt", unsigned short v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_j, "_Z13convert_ulongj", unsigned v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_l, "_Z13convert_ulongl", long v) { return (unsigned long)v; }
B(unsigned long, cv_ulong_m, "_Z13convert_ulongm", unsigned long v) { return (unsigned long)v; }
B(float, cf_f, "_Z13convert_floatf", float v) { return v; }
B(ul, cu_f, "_Z13convert_ulongf", float v) { return (ul)v; }
B(ul, cu_i, "_Z13convert_ulongi", int v) { return (ul)(long)v; }
B(int, ci_m, "_Z11convert_intm", ul v) { return (int)v; }
B(float, mn_f, "_Z4fminff", float a, float b) { return b < a ? b : a; }
B(float, mx_f, "_Z4fmaxff", float a, float b) { return b > a ? b : a; }
B(float, fa_f, "_Z4fabsf", float a) { return a < 0 ? -a : a; }
B(ul, mn_m, "_Z3minmm", ul a, ul b) { return b < a ? b : a; }
B(ul, mx_m, "_Z3maxmm", ul a, ul b) { return b > a ? b : a; }
B(ul, ad_m, "_Z8abs_diffmm", ul a, ul b) { return a < b ? b - a : a - b; }
B(ul, gid, "_Z13get_global_idj", u i) { return i ? 0 : vp_global_id; }
B(ul, gsz, "_Z15get_global_sizej", u i) { return i ? 1 : vp_global_size; }
B(ul, gof, "_Z17get_global_offsetj", u) { return 0; }
// every work-item is a group of its own: the host leaves the group size to the implementation
B(ul, lid, "_Z12get_local_idj", u) { return 0; }
B(ul, lsz, "_Z14get_local_sizej", u) { return 1; }
B(ul, grp, "_Z12get_group_idj", u i) { return i ? 0 : vp_global_id; }
B(ul, ngr, "_Z14get_num_groupsj", u i) { return i ? 1 : vp_global_size; }
B(u, dim, "_Z12get_work_dimv", void) { return 1; }
B(void, bar, "_Z7barrierj", u) {}
B(void, fen, "_Z9mem_fencej", u) {}
B(void, rfe, "_Z14read_mem_fencej", u) {}
B(void, wfe, "_Z15write_mem_fencej", u) {}
#define A(op, n, expr) B(int, op##_i, "_Z" #n #op "PU8CLglobalVii", volatile int* p, int v) { int o = *p; *p = (expr); return o; }
A(atomic_and, 10, o & v) A(atomic_or, 9, o | v) A(atomic_xor, 10, o ^ v) A(atomic_add, 10, o + v) A(atomic_sub, 10, o - v) A(atomic_xchg, 11, v) A(atomic_max, 10, o < v ? v : o) A(atomic_min, 10, v < o ? v : o)
B(int, inc_i, "_Z10atomic_incPU8CLglobalVi", volatile int* p) { int o = *p; *p = o + 1; return o; }
B(int, dec_i, "_Z10atomic_decPU8CLglobalVi", volatile int* p) { int o = *p; *p = o - 1; return o; }
B(int, cxc_i, "_Z14atomic_cmpxchgPU8CLglobalViii", volatile int* p, int c, int v) { int o = *p; if (o == c) *p = v; return o; }
B(float, fl_f, "_Z5floorf", float a) { float t = (float)(long)a; return t > a ? t - 1 : t; }
B(float, ce_f, "_Z4ceilf", float a) { float t = (float)(long)a; return t < a ? t + 1 : t; }
B(float, tr_f, "_Z5truncf", float a) { return (float)(long)a; }
B(float, mnc_f, "_Z3minff", float a, float b) { return b < a ? b : a; }
B(float, mxc_f, "_Z3maxff", float a, float b) { return b > a ? b : a; }
B(float, mad_f, "_Z3madfff", float a, float b, float c) { return a * b + c; }
B(float, fma_f, "_Z3fmafff", float a, float b, float c) { return a * b + c; }
B(int, mn_i, "_Z3minii", int a, int b) { return b < a ? b : a; }
B(int, mx_i, "_Z3maxii", int a, int b) { return b > a ? b : a; }
B(u, cuj_m, "_Z12convert_uintm", ul v) { return (u)v; }
