// Stand-in: what a grid-wide barrier does is up to the harness.
#pragma once
extern "C" void vp_grid_sync();
namespace cooperative_groups {

struct grid_group { __device__ void sync() const { vp_grid_sync(); } __device__ bool is_valid() const { return true; } };
__device__ inline grid_group this_grid() { return grid_group(); }
}
