#pragma once
#include <cstddef>
#include <string>
#include <vp/alloc.hpp>
namespace umpire {
class Allocator {
  std::string n;

public:
  explicit Allocator(std::string name = "HOST") : n(std::move(name)) {}
  void* allocate(std::size_t bytes) {
    return vp::pool_allocate(bytes);
  }
  void deallocate(void* p) {
    vp::pool_deallocate(p);
  }
  const std::string& getName() const {
    return n;
  }
};
}
