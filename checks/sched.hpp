// Helpers for checks that explore schedules of the real code.
#pragma once
#include <functional>
#include <string>
#include <vector>

#include <vp/alloc.hpp>
#include <vp/explorer.hpp>
#include <vp/mpi_rt.hpp>

#include "pure.hpp"

namespace vp {
// Runs main on n ranks and checks that nothing is left behind
inline void ranks(int n, int threads, const std::function<void(int)>& main, bool limit_workers = false) {
  mpi_set_initialized(true);
  run_ranks({n, threads, limit_workers}, main);
  const auto l = mpi_leaks();
  VP_CHECK(l.empty(), "%s", l.c_str());
}

enum : unsigned { ALL_POLICIES = 0x3f, BASIC_POLICIES = (1u << FIFO) | (1u << LIFO) | (1u << EAGER) };

inline Case sched_case(std::string name, std::function<void()> f, int max_dev = 0, unsigned policies = ALL_POLICIES, bool both_mpi = true, bool hb = true) {
  Case c;
  c.name = std::move(name);
  c.run = std::move(f);
  c.policies.clear();
  for (int p = 0; p < NPOLICIES; ++p)
    if (policies & (1u << p))
      c.policies.push_back(p);
  c.mpi_modes = {MPI_EAGER};
  if (both_mpi)
    c.mpi_modes.push_back(MPI_RENDEZVOUS);
  c.max_dev = max_dev;
  c.hb = hb;
  return c;
}
}
