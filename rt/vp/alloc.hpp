// Accounting allocator behind the Umpire shim: fresh and released memory is filled with NaN patterns, every
// allocation has guard zones, and double frees and overruns are violations.
#pragma once
#include <functional>
#include <string>
#include <vector>
#include <cstddef>
#include <string>
namespace vp {
void* pool_allocate(std::size_t bytes);
void pool_deallocate(void* p);
long pool_live();                  // number of live allocations
bool pool_contains(const void* p, std::size_t n);  // inside one live allocation
void pool_reset();                 // forget all live allocations
std::size_t pool_size_of(const void* p);           // size of the live allocation that starts at p, or 0
extern unsigned long pool_total;   // allocations so far
// what allocators get made from (Umpire shim), and the streams and handles of the GPU
struct PoolSpec {
  std::string name, parent;
  std::size_t initial, next, alignment;
  std::function<std::size_t(std::size_t actual, std::size_t blocks, std::size_t releasable)> coalesce;
};
std::vector<PoolSpec>& pool_specs();
struct GpuPoolArgs {
  std::size_t device = 0, np_streams = 0, hp_streams = 0, blas_handles = 0, lapack_handles = 0;
};
GpuPoolArgs& gpu_pool_args();
}
