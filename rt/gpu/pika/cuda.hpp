// Just enough of pika's GPU interface to compile the part of init.cpp that hands the configuration to the GPU: it records
// what it was given.
#pragma once
#include <cstddef>
#include <vp/alloc.hpp>
namespace pika::cuda::experimental {
struct cuda_pool {
  cuda_pool(int device, std::size_t np_streams, std::size_t hp_streams, unsigned, std::size_t blas_handles, std::size_t lapack_handles) {
    vp::gpu_pool_args() = {std::size_t(device), np_streams, hp_streams, blas_handles, lapack_handles};
  }
};
namespace detail {
template <class P>
void register_polling(P&&) {}
}
}
