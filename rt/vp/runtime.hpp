// vp runtime: controlled scheduler on which the real DLA-Future code is executed.
//
// One OS thread; every task (pika task, rank main program, MPI completion) is a fiber or an event that is
// run by Scheduler::run().  Which one runs next is decided by the explorer (see explorer.hpp), so every
// execution is reproducible from its list of decisions.
#pragma once
#include <cstddef>
#include <cstdint>
#include <cstdio>
#include <exception>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include <vp/hb.hpp>

namespace vp {

// ---- decisions -----------------------------------------------------------------------------------
enum class ChoiceKind : std::uint8_t { Pick = 0, Preempt = 1, Mpi = 2, Data = 3 };

// returns a value in [0, n); decided by the installed explorer
int choose(int n, ChoiceKind kind, int def);

// ---- violations ----------------------------------------------------------------------------------
// Reports the violation of the running scenario and terminates the process. Never returns.
[[noreturn]] void violation(const std::string& what);
// number of checks evaluated (oracle evaluations), for evidence
extern std::uint64_t n_checks;
void heartbeat();
__attribute__((noinline, no_sanitize("thread"))) inline void count_check() {
  if ((++n_checks & 0xffff) == 0)
    heartbeat();
}
void check_failed(const char* expr, const char* file, int line, const std::string& msg);
#define VP_CHECK(cond, ...)                                                             \
  do {                                                                                  \
    ::vp::count_check();                                                                 \
    if (!(cond))                                                                        \
      ::vp::check_failed(#cond, __FILE__, __LINE__, ::vp::fmt(__VA_ARGS__));            \
  } while (0)
std::string fmt();
std::string fmt(const char* f, ...) __attribute__((format(printf, 1, 2)));

// ---- tasks and fibers ----------------------------------------------------------------------------
struct VC;  // vector clock (hb.cpp)

struct TaskBase {
  int rank = 0;
  int prio = 0;
  bool nostack = false;
  bool mpi_pool = false;  // runs on a thread which is reserved for communication
  void* hb = nullptr;  // happens-before token of the submitter
  virtual void run() = 0;

protected:
  ~TaskBase() = default;
};

struct Fiber;

struct WaitList {
  std::vector<Fiber*> waiters;
};

// Make a task runnable.  Must be called from a fiber.
void spawn(TaskBase* t);
// Scheduling point at which the running fiber may be preempted.
void preempt_point();
// Tasks submitted by a rank while its runtime is not running (suspended, stopped) are kept until it is.
void set_running(int rank, bool running);
// life cycle of the (pika) runtime of a rank, observed by the oracles
struct lifecycle {
  int started = 1, suspended = 0, finalized = 0, starts = 0, stops = 0, suspends = 0, resumes = 0, polling = 0;
};
// of the current rank: every rank is a process of its own
lifecycle& life();
// Suspends the current fiber until it gets woken from the list. `why` is shown in deadlock reports.
// (keeps_worker: as a blocking call of the operating system does, in contrast to a task that suspends)
void park(WaitList& wl, const char* why, bool keeps_worker = false);
void wake_one(WaitList& wl);
void wake_all(WaitList& wl);
// Event: a callback run by the scheduler, as a separate runnable item (e.g. an MPI completion)
void post_event(int rank, std::function<void()> f, const char* what);
int current_rank();
bool in_fiber();
std::uint64_t current_task_id();

// ---- runs ----------------------------------------------------------------------------------------
struct RunConfig {
  int nranks = 1;
  int nthreads = 2;  // size of the worker pool each rank reports
  bool limit_workers = false;  // at most nthreads tasks are running, preempted or blocked in MPI at a time
};

// Executes the program `main(rank)` on `cfg.nranks` ranks until everything has finished.
void run_ranks(const RunConfig& cfg, const std::function<void(int)>& main);
// Blocks the calling fiber until no task of its rank is runnable/blocked any more (pika::wait)
void wait_all_tasks();
// outstanding asynchronous work (e.g. MPI operations) which wait_all_tasks() has to wait for
void work_begin(int rank);
void work_end(int rank);
int num_ranks();
int num_threads();
void set_num_threads(int n);

struct RunStats {
  std::uint64_t tasks = 0, switches = 0, events = 0, choices = 0;
};
extern RunStats stats;

// ---- registered resources: leak accounting -------------------------------------------------------
void leak_check_reset();
std::string leak_check_report();  // empty if nothing leaked
struct Counters {
  std::int64_t chunks = 0, comms = 0, types = 0, requests = 0, opstates = 0;
};
extern Counters live;
void opstates_add(int n);
}
