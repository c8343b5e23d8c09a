// Stateless explorer: enumerates executions of scenarios and reports the first violation.
#pragma once
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

#include <vp/runtime.hpp>

namespace vp {

// Base schedules. Every execution is identified by (case, policy, mpi mode, list of deviations).
enum Policy : int {
  FIFO = 0,       // oldest runnable item first
  LIFO = 1,       // newest runnable item first
  EAGER = 2,      // every spawned task is run at once (the spawner is preempted)
  HIGHRANK = 3,   // highest rank first, FIFO
  LOWRANK = 4,    // lowest rank first, LIFO
  LATEEVENTS = 5, // completions (MPI) only when nothing else can run, FIFO
  NPOLICIES = 6
};
enum MpiMode : int {
  MPI_EAGER = 0,       // sends complete as soon as they are posted (payload copied)
  MPI_RENDEZVOUS = 1,  // sends complete only when matched, payload read as late as possible
  NMPIMODES = 2
};

struct Case {
  std::string name;
  std::function<void()> run;           // one complete execution, including its oracle
  std::vector<int> policies = {FIFO};  // base schedules to use
  std::vector<int> mpi_modes = {MPI_EAGER};
  int max_dev = 0;                     // maximal number of deviations from the base schedule (-1: all schedules);
                                       // choices of kind Data are always explored exhaustively and do not count
  int alt_cap = 0;                     // 0: all alternatives of a decision, k: first k/2 and last k/2 ones
  int split = 1;                       // number of work units the case is divided into
  bool hb = false;                     // data race detection on the base executions
  std::uint64_t max_runs = 0;          // 0: no cap. Otherwise cap per unit (reported as not exhaustive)
};

int mpi_mode();
int policy();
bool first_run_of_unit();
// The outcome for an input: must be equal for all executions of the case with the same input (key)
void outcome(std::uint64_t key, std::uint64_t hash);
std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h = 1469598103934665603ull);
// text printed with a violation (inputs of the current evaluation)
void context(const std::string& s);
std::string context();
// counts an evaluation of an oracle on an input that is not trivial
extern std::uint64_t n_nontrivial;

struct Suite {
  std::string property;
  std::string rule;  // when does an evaluation count as distinct and not trivial
  std::vector<Case> cases;
  std::vector<std::string> samples;  // examples of what gets explored
};

// cases are generated by gen(thorough)
int explore_main(int argc, char** argv, const std::function<Suite(bool thorough)>& gen);
}
