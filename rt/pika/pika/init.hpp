#pragma once
#include <functional>
#include <pika/program_options.hpp>
#include <pika/runtime.hpp>
namespace pika {
namespace vp_detail {
inline const program_options::options_description& no_options() {
  static program_options::options_description d;
  return d;
}
}
struct init_params {
  std::reference_wrapper<const program_options::options_description> desc_cmdline = vp_detail::no_options();
  std::function<void(void*)> rp_callback;
};
inline void start(int, const char* const*, const init_params& = init_params()) {
  auto& l = vp_detail::life();
  if (l.started)
    vp::violation("pika::start: runtime already started");
  l = vp_detail::lifecycle{1, 0, 0, l.starts + 1, l.stops, l.suspends, l.resumes, l.polling};
  vp::set_running(vp::current_rank(), true);
}
template <class... Args>
void finalize(Args&&...) {
  auto& l = vp_detail::life();
  if (!l.started || l.suspended)
    vp::violation("pika::finalize: runtime not running");
  l.finalized = 1;
}
inline int stop() {
  auto& l = vp_detail::life();
  if (!l.started || !l.finalized)
    vp::violation("pika::stop: runtime not finalized");
  vp::wait_all_tasks();
  l.started = 0;
  vp::set_running(vp::current_rank(), false);
  l.finalized = 0;
  ++l.stops;
  return 0;
}
// Runs main as the only rank of a run (used by the repository's unit tests)
template <class F>
int init(F f, int argc, char** argv, const init_params& p = init_params()) {
  program_options::options_description d("");
  d.add(p.desc_cmdline);
  program_options::variables_map vm;
  program_options::store(
      program_options::command_line_parser(argc, argv).options(d).allow_unregistered().run(), vm);
  program_options::notify(vm);
  int ret = 0;
  vp_detail::life().started = 1;
  vp::RunConfig cfg;
  vp::run_ranks(cfg, [&](int) {
    if constexpr (std::is_invocable_v<F, program_options::variables_map&>)
      ret = f(vm);
    else if constexpr (std::is_invocable_v<F, int, char**>)
      ret = f(argc, argv);
    else
      ret = f();
  });
  return ret;
}
}
