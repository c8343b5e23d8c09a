// Part of P30, compiled with the code of GPU builds in init.cpp and memory_chunk.cpp.
#include <dlaf/init.h>

extern "C" void p30_gpu_initialize(int argc, const char* const* argv, const dlaf::configuration* c) {
  dlaf::initialize(argc, argv, *c);
}
extern "C" void p30_gpu_finalize() {
  dlaf::finalize();
}
