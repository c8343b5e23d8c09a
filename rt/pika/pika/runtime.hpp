#pragma once
#include <cstddef>
#include <string>
#include <pika/vp_core.hpp>
namespace pika {
namespace threads::detail {
class thread_pool_base {
public:
  std::size_t get_os_thread_count() const {
    return static_cast<std::size_t>(vp::num_threads());
  }
  const std::string& get_pool_name() const {
    static std::string n = "default";
    return n;
  }
};
}
namespace resource {
inline threads::detail::thread_pool_base& get_thread_pool(const std::string&) {
  static threads::detail::thread_pool_base p;
  return p;
}
inline std::size_t get_num_threads(const std::string&) {
  return static_cast<std::size_t>(vp::num_threads());
}
inline std::size_t get_num_threads() {
  return static_cast<std::size_t>(vp::num_threads());
}
}
namespace vp_detail {
using lifecycle = vp::lifecycle;
inline lifecycle& life() {
  return vp::life();
}
// The state every execution starts from is a running runtime (the programs of most checks do not start it themselves);
// checks of the life cycle start each rank with this instead.
inline void not_started() {
  life() = {0};
  vp::set_running(vp::current_rank(), false);
}
inline void back_to_default() {
  life() = {};
  vp::set_running(vp::current_rank(), true);
}
}
inline bool is_runtime_initialized() {
  return vp_detail::life().started > 0;
}
inline void wait() {
  vp::wait_all_tasks();
}
inline void suspend() {
  auto& l = vp_detail::life();
  if (!l.started || l.suspended)
    vp::violation("pika::suspend: runtime not running");
  vp::wait_all_tasks();
  l.suspended = 1;
  vp::set_running(vp::current_rank(), false);
  ++l.suspends;
}
inline void resume() {
  auto& l = vp_detail::life();
  if (!l.started || !l.suspended)
    vp::violation("pika::resume: runtime not suspended");
  l.suspended = 0;
  vp::set_running(vp::current_rank(), true);
  ++l.resumes;
}
}
