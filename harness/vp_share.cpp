// Native replay of an interleaving found by the solver: the code under test is compiled with
// -fsanitize=thread instrumentation only; these hooks play the other threads' part before each
// read of the shared object and check each write.
#include "vp.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unistd.h>
extern "C" {
static char* sh = nullptr; static unsigned long shSize; static const char *lo, *hi;
static unsigned long* frozen = nullptr; static long nread = 0, nwrite = 0; static bool pending = false;
void vp_fail(const char*);
static unsigned long sizeOf(void* p) { return vp_param("SHARE_BYTES", 8); }
static void settle() {
    if (!pending) return;
    pending = false;
    for (unsigned long k = 0; k < shSize; ++k) {
        if (lo[k] & ~sh[k]) vp_check(false, "a write to the shared availability drops a supported node");
        if (sh[k] & ~hi[k]) vp_check(false, "a write to the shared availability revives a node");
    }
    if (frozen) {
        if (*frozen) vp_assume(false);
        if (vp_u64(("w#" + std::to_string(nwrite)).c_str(), -1, 0, 1)) *frozen = 1;
    }
    ++nwrite;
}
void vp_share_size(unsigned long n) { shSize = n; }
void vp_share(void* p, const void* l, const void* h) { sh = (char*)p; lo = (const char*)l; hi = (const char*)h; }
void vp_share_last(void*, unsigned long* f) { frozen = f; }
void vp_unshare(void*) { settle(); sh = nullptr; }
static bool in(void* p) { return sh && (char*)p >= sh && (char*)p < sh + shSize; }
static void rd(void* p) {
    settle();
    if (!in(p)) return;
    unsigned long c; long e = 0;
    for (unsigned long k = 0; k < shSize; k += c, ++e) {
        c = shSize - k >= 8 ? 8 : 1;
        unsigned long v = vp_u64(("e#" + std::to_string(nread) + "[" + std::to_string(e) + "]").c_str(), -1, ~0ul, 0);
        if (v == ~0ul && !vp_u64(("e#" + std::to_string(nread) + "[" + std::to_string(e) + "]").c_str(), -1, 0, 0)) vp_assume(false); // beyond the recorded schedule
        memcpy(sh + k, &v, c);
    }
    ++nread;
}
static void wr(void* p) { settle(); if (in(p)) pending = true; }
void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) void __tsan_read##n(void* p) { rd(p); } void __tsan_write##n(void* p) { wr(p); } \
    void __tsan_unaligned_read##n(void* p) { rd(p); } void __tsan_unaligned_write##n(void* p) { wr(p); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void**, void*) {}
void __tsan_vptr_read(void**) {}
void* __tsan_memset(void* p, int v, unsigned long n) { wr(p); return memset(p, v, n); }
void* __tsan_memcpy(void* d, const void* s, unsigned long n) { rd((void*)s); wr(d); return memcpy(d, s, n); }
void* __tsan_memmove(void* d, const void* s, unsigned long n) { rd((void*)s); wr(d); return memmove(d, s, n); }
int __tsan_atomic8_load(const volatile char* p, int) { return *p; }
int __tsan_atomic32_load(const volatile int* p, int) { return *p; }
int __tsan_atomic32_fetch_add(volatile int* p, int v, int) { return __sync_fetch_and_add(p, v); }
}
