#pragma once
#include <cstddef>
namespace umpire::strategy {
class QuickPool {
  std::size_t a, b, s;

public:
  QuickPool(std::size_t actual, std::size_t blocks, std::size_t releasable) : a(actual), b(blocks), s(releasable) {}
  std::size_t getActualSize() const {
    return a;
  }
  std::size_t getReleasableBlocks() const {
    return b;
  }
  std::size_t getReleasableSize() const {
    return s;
  }
};
}
