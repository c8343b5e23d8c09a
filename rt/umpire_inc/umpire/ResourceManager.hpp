#pragma once
#include <functional>
#include <type_traits>
#include <utility>
#include <umpire/Allocator.hpp>
#include <umpire/strategy/QuickPool.hpp>
namespace umpire {
class ResourceManager {
public:
  static ResourceManager& getInstance() {
    static ResourceManager r;
    return r;
  }
  Allocator getAllocator(const std::string& n) {
    return Allocator(n);
  }
  template <class S, class... Args>
  Allocator makeAllocator(const std::string& n, Args&&... args) {
    record<S>(n, args...);
    return Allocator(n);
  }

private:
  template <class S>
  void record(const std::string& n, const Allocator& parent) {
    vp::pool_specs().push_back({n, parent.getName(), 0, 0, 0, {}});
  }
  template <class S>
  void record(const std::string& n, const Allocator& parent, std::size_t initial, std::size_t next, std::size_t alignment,
              const std::function<std::size_t(const strategy::QuickPool&)>& coalesce) {
    static_assert(std::is_same_v<S, strategy::QuickPool>);
    vp::pool_specs().push_back({n, parent.getName(), initial, next, alignment, [=](std::size_t actual, std::size_t blocks, std::size_t releasable) {
                                  return coalesce(strategy::QuickPool(actual, blocks, releasable));
                                }});
  }
};
}
