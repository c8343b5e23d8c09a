#pragma once
#include <blas.hh>
#include <pika/runtime.hpp>

// functions newer than the installed BLAS++ and of the pika that is not installed
namespace blas {
#define TO_CHAR(E) \
  inline char to_char(E e) { \
    return static_cast<char>(e); \
  }
TO_CHAR(Layout) TO_CHAR(Op) TO_CHAR(Uplo) TO_CHAR(Diag) TO_CHAR(Side)
#undef TO_CHAR
}
namespace pika {
inline std::size_t get_os_thread_count() {
  return resource::get_num_threads();
}
}
