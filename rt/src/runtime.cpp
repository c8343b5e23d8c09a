#include <vp/runtime.hpp>
#include <vp/hb.hpp>
#include <vp/mpi_rt.hpp>

#include <cstdarg>
#include <cstring>
#include <deque>
#include <sys/mman.h>
#include <unistd.h>

#include <cxxabi.h>

namespace __cxxabiv1 {
struct __cxa_eh_globals;
extern "C" __cxa_eh_globals* __cxa_get_globals() noexcept;
}

extern "C" char __libc_single_threaded;

namespace vp {

RunStats stats;
Counters live;
void opstates_add(int n) {
  live.opstates += n;
}
std::uint64_t n_checks = 0;

std::string fmt() {
  return {};
}
std::string fmt(const char* f, ...) {
  char buf[2048];
  va_list ap;
  va_start(ap, f);
  vsnprintf(buf, sizeof(buf), f, ap);
  va_end(ap);
  return buf;
}

void check_failed(const char* expr, const char* file, int line, const std::string& msg) {
  const char* b = std::strrchr(file, '/');
  violation(std::string("check failed: ") + expr + (msg.empty() ? "" : " -- " + msg) + " [" +
            (b ? b + 1 : file) + ":" + std::to_string(line) + "]");
}

// -------------------------------------------------------------------------------------------------
extern "C" void vp_swap_ctx(void** save_sp, void* new_sp);
asm(R"(
.text
.globl vp_swap_ctx
.type vp_swap_ctx,@function
vp_swap_ctx:
  pushq %rbp
  pushq %rbx
  pushq %r12
  pushq %r13
  pushq %r14
  pushq %r15
  movq %rsp, (%rdi)
  movq %rsi, %rsp
  popq %r15
  popq %r14
  popq %r13
  popq %r12
  popq %rbx
  popq %rbp
  ret
.size vp_swap_ctx,.-vp_swap_ctx
)");

struct Stack {
  char* base = nullptr;
  std::size_t size = 0;
};

static constexpr std::size_t STACK = 1 << 20;
static std::vector<Stack> stack_pool;

static Stack get_stack() {
  if (!stack_pool.empty()) {
    Stack s = stack_pool.back();
    stack_pool.pop_back();
    return s;
  }
  void* p = mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE,
                 -1, 0);
  if (p == MAP_FAILED) {
    perror("mmap");
    _exit(3);
  }
  mprotect(p, 4096, PROT_NONE);
  return {static_cast<char*>(p) + 4096, STACK};
}

struct Fiber {
  void* sp = nullptr;
  Stack stack;
  TaskBase* task = nullptr;
  std::function<void()> main;
  int rank = 0;
  bool nostack = false;
  bool waiting_all = false;
  bool own_thread = false;  // does not need a worker
  bool on_worker = false;  // holds a worker of its rank
  std::uint64_t id = 0;
  const char* why = nullptr;
  char eh[16] = {0};
  HbThread* hb = nullptr;
  bool done = false;
};

struct Item {
  Fiber* fiber = nullptr;
  TaskBase* task = nullptr;
  std::function<void()> ev;
  const char* what = nullptr;
  void* hb = nullptr;
  int rank = 0;
  std::uint64_t id = 0;
};

static void* sched_sp = nullptr;
static char sched_eh[16];
static Fiber* cur = nullptr;
static int cur_event_rank = -1;
static std::deque<Item> ready;
static std::deque<Item> held;      // tasks submitted to a runtime which is suspended or stopped
static bool not_running[64];
static std::vector<Fiber*> blocked;  // parked fibers
static std::vector<Fiber*> wait_all; // fibers in wait_all_tasks
static RunConfig config;
static std::vector<int> rank_active;  // number of existing tasks (runnable/blocked), without the mains
static std::uint64_t next_id = 0;
static int mains_left = 0;
static int occupied[64];  // workers holding a task, per rank

bool in_fiber() {
  return cur != nullptr;
}
int current_rank() {
  return cur ? cur->rank : (cur_event_rank >= 0 ? cur_event_rank : 0);
}
std::uint64_t current_task_id() {
  return cur ? cur->id : 0;
}
int num_ranks() {
  return config.nranks;
}
int num_threads() {
  return config.nthreads;
}
void set_num_threads(int n) {
  config.nthreads = n;
}

static void eh_save(char* to) {
  std::memcpy(to, __cxxabiv1::__cxa_get_globals(), 16);
}
static void eh_restore(const char* from) {
  std::memcpy(reinterpret_cast<void*>(__cxxabiv1::__cxa_get_globals()), from, 16);
}

static void to_scheduler() {
  Fiber* me = cur;
  eh_save(me->eh);
  vp_swap_ctx(&me->sp, sched_sp);
  eh_restore(me->eh);
}

static void fiber_entry() {
  Fiber* me = cur;
  if (me->task) {
    TaskBase* t = me->task;
    me->task = nullptr;
    t->run();
    hb_release(&rank_active[static_cast<std::size_t>(me->rank)]);
  }
  else {
    try {
      me->main();
    }
    catch (const std::exception& e) {
      violation(std::string("unhandled exception in rank main: ") + e.what());
    }
    me->main = nullptr;
  }
  me->done = true;
  to_scheduler();
  __builtin_unreachable();
}

static Fiber* new_fiber() {
  Fiber* f = new Fiber;
  f->stack = get_stack();
  std::uintptr_t top = reinterpret_cast<std::uintptr_t>(f->stack.base + f->stack.size);
  top &= ~std::uintptr_t(15);
  void** sp = reinterpret_cast<void**>(top);
  *--sp = nullptr;  // alignment + fake return address
  *--sp = reinterpret_cast<void*>(&fiber_entry);
  for (int i = 0; i < 6; ++i)
    *--sp = nullptr;
  f->sp = sp;
  return f;
}

static void free_fiber(Fiber* f) {
  if (f->hb)
    hb_thread_end(f->hb);
  stack_pool.push_back(f->stack);
  delete f;
}

static void resume(Fiber* f) {
  cur = f;
  if (hb_on)
    hb_switch(f->hb);
  ++stats.switches;
  eh_save(sched_eh);
  vp_swap_ctx(&sched_sp, f->sp);
  eh_restore(sched_eh);
  cur = nullptr;
  if (hb_on)
    hb_switch(nullptr);
}

// whether the item may run now: with limited workers, tasks need a free one
static bool enabled(const Item& it) {
  return !config.limit_workers || it.ev || (it.fiber && (it.fiber->own_thread || it.fiber->on_worker)) || (it.task && it.task->mpi_pool) || occupied[it.rank] < config.nthreads;
}
static void take_worker(Fiber* f) {
  if (!f->own_thread && !f->on_worker) {
    f->on_worker = true;
    ++occupied[f->rank];
  }
}
static void leave_worker(Fiber* f) {
  if (f->on_worker) {
    f->on_worker = false;
    --occupied[f->rank];
  }
}

void preempt_point() {
  if (!cur || cur->nostack || ready.empty())
    return;
  if (config.limit_workers) {
    bool any = false;
    for (const auto& it : ready)
      any = any || enabled(it);
    if (!any)
      return;
  }
  if (choose(2, ChoiceKind::Preempt, 0) == 0)
    return;
  // go to the front of the list: the scheduler skips it for its first pick
  Item it;
  it.fiber = cur;
  it.rank = cur->rank;
  it.id = cur->id;
  it.what = "preempted";
  ready.push_back(std::move(it));
  to_scheduler();
}

void spawn(TaskBase* t) {
  t->rank = current_rank();
  if (hb_on)
    t->hb = hb_fork();
  Item it;
  it.task = t;
  it.rank = t->rank;
  it.id = ++next_id;
  ++rank_active[static_cast<std::size_t>(t->rank)];
  ++stats.tasks;
  if (not_running[t->rank]) {
    held.push_back(std::move(it));
    return;
  }
  ready.push_back(std::move(it));
  preempt_point();
}

lifecycle& life() {
  static lifecycle l[64];
  return l[current_rank()];
}
void set_running(int rank, bool running) {
  not_running[rank] = !running;
  if (!running)
    return;
  for (std::size_t i = 0; i < held.size();) {
    if (held[i].rank == rank) {
      ready.push_back(std::move(held[i]));
      held.erase(held.begin() + static_cast<std::ptrdiff_t>(i));
    }
    else
      ++i;
  }
}

void post_event(int rank, std::function<void()> f, const char* what) {
  Item it;
  it.ev = std::move(f);
  it.rank = rank;
  it.what = what;
  if (hb_on)
    it.hb = hb_fork();
  it.id = ++next_id;
  ready.push_back(std::move(it));
  ++stats.events;
}

void park(WaitList& wl, const char* why, bool keeps_worker) {
  if (!cur)
    violation(std::string("blocking call outside of a task: ") + why);
  if (cur->nostack)
    violation(std::string("blocking call in a task without own stack: ") + why);
  cur->why = why;
  if (!keeps_worker)
    leave_worker(cur);
  wl.waiters.push_back(cur);
  blocked.push_back(cur);
  to_scheduler();
}

static void make_ready(Fiber* f) {
  for (auto it = blocked.begin(); it != blocked.end(); ++it)
    if (*it == f) {
      blocked.erase(it);
      break;
    }
  Item i;
  i.fiber = f;
  i.rank = f->rank;
  i.id = f->id;
  i.what = "woken";
  ready.push_back(std::move(i));
}

void wake_one(WaitList& wl) {
  if (wl.waiters.empty())
    return;
  int k = wl.waiters.size() > 1 ? choose(static_cast<int>(wl.waiters.size()), ChoiceKind::Pick, 0) : 0;
  Fiber* f = wl.waiters[static_cast<std::size_t>(k)];
  wl.waiters.erase(wl.waiters.begin() + k);
  make_ready(f);
}

void wake_all(WaitList& wl) {
  auto w = std::move(wl.waiters);
  wl.waiters.clear();
  for (auto* f : w)
    make_ready(f);
}

void wait_all_tasks() {
  if (!cur)
    return;
  while (rank_active[static_cast<std::size_t>(cur->rank)] > 0) {
    cur->waiting_all = true;
    cur->why = "pika::wait";
    leave_worker(cur);
    wait_all.push_back(cur);
    to_scheduler();
    cur->waiting_all = false;
  }
  // everything the finished tasks did is visible from here on
  hb_acquire(&rank_active[static_cast<std::size_t>(cur->rank)]);
}

static void task_done(int rank) {
  if (--rank_active[static_cast<std::size_t>(rank)] == 0) {
    for (std::size_t i = 0; i < wait_all.size();) {
      if (wait_all[i]->rank == rank) {
        Fiber* f = wait_all[i];
        wait_all.erase(wait_all.begin() + static_cast<std::ptrdiff_t>(i));
        Item it;
        it.fiber = f;
        it.rank = rank;
        it.id = f->id;
        ready.push_back(std::move(it));
      }
      else
        ++i;
    }
  }
}

void work_begin(int rank) {
  ++rank_active[static_cast<std::size_t>(rank)];
}
void work_end(int rank) {
  hb_release(&rank_active[static_cast<std::size_t>(rank)]);
  task_done(rank);
}

int policy_pick(const int* ranks, const bool* is_event, const bool* is_preempted, int n);

void run_ranks(const RunConfig& cfg, const std::function<void(int)>& main) {
  __libc_single_threaded = 0;  // make libstdc++ use atomic reference counting
  config = cfg;
  ready.clear();
  held.clear();
  blocked.clear();
  wait_all.clear();
  next_id = 0;
  rank_active.assign(static_cast<std::size_t>(cfg.nranks), 0);
  mains_left = cfg.nranks;
  for (int& o : occupied)
    o = 0;
  mpi_reset(cfg.nranks);
  hb_on = hb_request;
  if (hb_on)
    hb_begin();
  std::vector<Fiber*> mains;
  for (int r = 0; r < cfg.nranks; ++r) {
    Fiber* f = new_fiber();
    f->rank = r;
    f->own_thread = true;
    f->id = ++next_id;
    f->main = [&main, r] { main(r); };
    if (hb_on)
      f->hb = hb_thread_new(nullptr);
    Item it;
    it.fiber = f;
    it.rank = r;
    it.id = f->id;
    ready.push_back(std::move(it));
    mains.push_back(f);
  }
  std::vector<int> ranks, able;
  std::unique_ptr<bool[]> isev, ispre;
  std::size_t cap = 0;
  while (true) {
    if (ready.empty()) {
      if (mains_left == 0 && blocked.empty() && wait_all.empty() && held.empty())
        break;
      std::string s = "deadlock: " + mpi_pending();
      for (auto* f : blocked)
        s += fmt("[rank %d task %llu: %s] ", f->rank, (unsigned long long) f->id, f->why ? f->why : "?");
      for (auto* f : wait_all)
        s += fmt("[rank %d: pika::wait] ", f->rank);
      if (!held.empty())
        s += fmt("[rank %d: %d tasks were submitted while its runtime was not running] ", held[0].rank, (int) held.size());
      violation(s);
    }
    int n = static_cast<int>(ready.size());
    int k = 0;
    able.clear();
    for (int i = 0; i < n; ++i)
      if (enabled(ready[static_cast<std::size_t>(i)]))
        able.push_back(i);
    n = static_cast<int>(able.size());
    if (n == 0) {
      std::string s = fmt("deadlock: %d tasks are ready but all workers are blocked: ", (int) ready.size());
      for (auto* f : blocked)
        s += fmt("[rank %d task %llu: %s] ", f->rank, (unsigned long long) f->id, f->why ? f->why : "?");
      violation(s);
    }
    if (n > 1) {
      ranks.resize(static_cast<std::size_t>(n));
      if (cap < static_cast<std::size_t>(n)) {
        cap = static_cast<std::size_t>(n) * 2;
        isev.reset(new bool[cap]);
        ispre.reset(new bool[cap]);
      }
      for (int i = 0; i < n; ++i) {
        auto& it = ready[static_cast<std::size_t>(able[static_cast<std::size_t>(i)])];
        ranks[static_cast<std::size_t>(i)] = it.rank;
        isev[static_cast<std::size_t>(i)] = bool(it.ev);
        ispre[static_cast<std::size_t>(i)] = it.fiber && it.what && it.what[0] == 'p';
      }
      k = choose(n, ChoiceKind::Pick, policy_pick(ranks.data(), isev.get(), ispre.get(), n));
    }
    k = able[static_cast<std::size_t>(k)];
    Item it = std::move(ready[static_cast<std::size_t>(k)]);
    ready.erase(ready.begin() + k);
    if (it.ev) {
      cur_event_rank = it.rank;
      if (hb_on)
        hb_event_begin(it.hb);
      it.ev();
      if (hb_on)
        hb_event_end();
      cur_event_rank = -1;
      continue;
    }
    Fiber* f = it.fiber;
    if (!f) {
      f = new_fiber();
      f->rank = it.rank;
      f->id = it.id;
      f->task = it.task;
      f->nostack = it.task->nostack;
      f->own_thread = it.task->mpi_pool;
      if (hb_on) {
        f->hb = hb_thread_new(it.task->hb);
        hb_stack(f->hb, f->stack.base, f->stack.size);
      }
    }
    take_worker(f);
    resume(f);
    if (f->done) {
      leave_worker(f);
      bool is_main = false;
      for (auto& m : mains)
        if (m == f) {
          m = nullptr;
          is_main = true;
        }
      int r = f->rank;
      if (is_main)
        --mains_left;
      free_fiber(f);
      if (!is_main)
        task_done(r);
    }
  }
  for (int r = 0; r < cfg.nranks; ++r)
    if (rank_active[static_cast<std::size_t>(r)] != 0)
      violation("deadlock: operations that were started never complete");
  if (hb_on)
    hb_finish();
}
}
