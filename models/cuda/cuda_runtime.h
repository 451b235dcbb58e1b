// Stand-in for the CUDA runtime's declarations.
#pragma once
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#if defined(__CUDA__)       // clang -x cuda: the host side with kernel launches
#define __host__ __attribute__((host))
#define __device__ __attribute__((device))
#define __global__ __attribute__((global))
#define __shared__ __attribute__((shared))
#define __constant__ __attribute__((constant))
#include <cassert>
#include <cstddef>
#include <cstdlib>
// how the program ends is up to the harness (cuda_host.cpp)
extern "C" [[noreturn]] void vp_exit(int); extern "C" [[noreturn]] void vp_assert_fail(const char*, const char*, unsigned, const char*);
#include <cstdio>
#define printf(...) ((void)0)
#define fprintf(...) ((void)0)
#define exit vp_exit
#define _exit vp_exit
#define abort() vp_exit(134)
#define __assert_fail vp_assert_fail
struct dim3 { unsigned x, y, z; __host__ __device__ constexpr dim3(unsigned x = 1, unsigned y = 1, unsigned z = 1) : x(x), y(y), z(z) {} };
struct uint3 { unsigned x, y, z; };
struct CUstream_st; typedef CUstream_st* cudaStream_t;
enum cudaError { cudaSuccess = 0, cudaErrorUnknown = 999 }; typedef cudaError cudaError_t;
enum cudaMemcpyKind { cudaMemcpyHostToHost, cudaMemcpyHostToDevice, cudaMemcpyDeviceToHost, cudaMemcpyDeviceToDevice, cudaMemcpyDefault };
extern "C" {
cudaError_t cudaMalloc(void**, size_t);
cudaError_t cudaFree(void*);
cudaError_t cudaMemcpy(void*, const void*, size_t, cudaMemcpyKind);
cudaError_t cudaMemset(void*, int, size_t);
cudaError_t cudaDeviceSynchronize();
cudaError_t cudaGetLastError();
cudaError_t cudaPeekAtLastError();
__host__ __device__ const char* cudaGetErrorString(cudaError_t);
cudaError_t cudaLaunchKernel(const void*, dim3, dim3, void**, size_t, cudaStream_t);
cudaError_t cudaLaunchCooperativeKernel(const void*, dim3, dim3, void**, size_t, cudaStream_t);
int cudaConfigureCall(dim3, dim3, size_t = 0, cudaStream_t = 0);
unsigned __cudaPushCallConfiguration(dim3, dim3, size_t = 0, cudaStream_t = 0);
cudaError_t __cudaPopCallConfiguration(dim3*, dim3*, size_t*, void*);
}
template <class T> cudaError_t cudaMalloc(T** p, size_t n) { return cudaMalloc((void**)(void*)p, n); }
template <class T> cudaError_t cudaLaunchCooperativeKernel(T* f, dim3 g, dim3 b, void** a, size_t m = 0, cudaStream_t s = 0) { return cudaLaunchCooperativeKernel((const void*)f, g, b, a, m, s); }
#else                       // the device program, compiled as C++
#define __global__
#define __shared__
#define __constant__
#ifndef __device__
#define __device__
#endif
#ifndef __host__
#define __host__
#endif
struct vp_dim { unsigned x, y, z; };
extern "C" vp_dim vp_block_id, vp_thread_id, vp_block_dim, vp_grid_dim;
#define blockIdx vp_block_id
#define threadIdx vp_thread_id
#define blockDim vp_block_dim
#define gridDim vp_grid_dim
static inline float __int2float_rn(int v) { return (float)v; }
static inline float __uint2float_rn(unsigned v) { return (float)v; }
template <class T> static inline T min(T a, T b) { return b < a ? b : a; }
template <class T> static inline T max(T a, T b) { return a < b ? b : a; }
static inline int atomicExch(int* p, int v) { int o = *p; *p = v; return o; }
static inline int atomicOr(int* p, int v) { int o = *p; *p |= v; return o; }
static inline int atomicAdd(int* p, int v) { int o = *p; *p += v; return o; }
static inline int atomicMax(int* p, int v) { int o = *p; if (v > o) *p = v; return o; }
static inline void __syncthreads() {}
static inline void __threadfence() {}
#endif
