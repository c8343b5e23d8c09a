#include <vp/explorer.hpp>
#include <vp/hb.hpp>

#include <algorithm>
#include <atomic>
#include <csignal>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <map>
#include <regex>
#include <set>
#include <sstream>
#include <sys/mman.h>
#include <sys/personality.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <unordered_set>

namespace vp {

std::uint64_t n_nontrivial = 0;

struct Dev {
  std::uint32_t pos;
  std::int32_t val;
};
static constexpr int MAXDEV = 24;
struct ExecId {
  std::int32_t unit = -1, cs = -1, policy = 0, mpi = 0, ndev = 0, nsched = 0;
  Dev dev[MAXDEV];
};

static constexpr int MAXW = 16;
struct Slot {
  ExecId id;
  std::atomic<int> running;
  std::atomic<std::uint64_t> beat;
  std::atomic<int> has_msg;
  char msg[4096];
  char ctx[1024];
};
struct Shared {
  std::atomic<int> next_unit;
  std::atomic<int> stop;
  std::atomic<std::uint64_t> runs, choices, tasks, switches, events, checks, nontrivial, distinct, capped, devruns;
  Slot slots[MAXW];
};
static Shared* sh = nullptr;
static Slot* slot = nullptr;
static Slot local_slot;
static std::atomic<std::uint64_t>* out_hash = nullptr;  // pairs of key and outcome

// ---- execution state -----------------------------------------------------------------------------
struct Rec {
  int n;
  int def;
  bool data;
};
static std::vector<Rec> trace;
static std::vector<Dev> devs;
static std::size_t next_dev = 0;
static int cur_policy = 0, cur_mpi = 0;
static bool is_first = false;
static bool recording = false;
static std::uint64_t trace_hash = 0;
static int cur_case = -1;
static bool replaying = false;

int mpi_mode() {
  return cur_mpi;
}
int policy() {
  return cur_policy;
}
bool first_run_of_unit() {
  return is_first;
}
std::uint64_t hash_bytes(const void* p, std::size_t n, std::uint64_t h) {
  auto* c = static_cast<const unsigned char*>(p);
  for (std::size_t i = 0; i < n; ++i) {
    h ^= c[i];
    h *= 1099511628211ull;
  }
  return h;
}
void context(const std::string& s) {
  if (slot) {
    std::strncpy(slot->ctx, s.c_str(), sizeof(slot->ctx) - 1);
    slot->ctx[sizeof(slot->ctx) - 1] = 0;
  }
}
std::string context() {
  return slot ? slot->ctx : "";
}

constexpr std::size_t OUTCOMES = std::size_t(1) << 22;
void outcome(std::uint64_t key, std::uint64_t h) {
  if (h == 0)
    h = 1;
  if (cur_case < 0 || !out_hash)
    return;
  key = hash_bytes(&cur_case, sizeof(cur_case), key);
  if (key == 0)
    key = 1;
  for (std::size_t i = key % OUTCOMES, n = 0; n < 1000; ++n, i = (i + 1) % OUTCOMES) {
    std::uint64_t k = 0;
    if (!out_hash[2 * i].compare_exchange_strong(k, key) && k != key)
      continue;
    std::uint64_t exp = 0;
    if (out_hash[2 * i + 1].compare_exchange_strong(exp, h))
      return;
    ++n_checks;
    if (exp != h)
      violation(fmt("the result depends on the schedule (outcome %016llx, another schedule gave %016llx)",
                    (unsigned long long) h, (unsigned long long) exp));
    return;
  }
}

void heartbeat() {
  if (slot)
    slot->beat.fetch_add(1, std::memory_order_relaxed);
}

static bool in_violation = false;
void violation(const std::string& what) {
  if (!in_violation) {
    in_violation = true;
    if (slot) {
      std::strncpy(slot->msg, what.c_str(), sizeof(slot->msg) - 1);
      slot->msg[sizeof(slot->msg) - 1] = 0;
      slot->has_msg = 1;
    }
    if (replaying)
      fprintf(stderr, "violation: %s\n", what.c_str());
  }
  _exit(77);
}

int choose(int n, ChoiceKind kind, int def) {
  if (n <= 1)
    return 0;
  ++stats.choices;
  if (kind == ChoiceKind::Preempt)
    def = cur_policy == EAGER ? 1 : 0;
  auto pos = static_cast<std::uint32_t>(trace.size());
  int v = def;
  if (next_dev < devs.size() && devs[next_dev].pos == pos) {
    v = devs[next_dev].val;
    ++next_dev;
    if (v >= n)
      violation(fmt("internal: nondeterministic execution (decision %u has %d alternatives, not more than %d)", pos,
                    n, v));
  }
  trace.push_back({n, def, kind == ChoiceKind::Data});
  trace_hash = (trace_hash ^ static_cast<std::uint64_t>(v + 1)) * 1099511628211ull;
  if ((pos & 1023) == 0 && slot)
    slot->beat.fetch_add(1, std::memory_order_relaxed);
  static const std::size_t horizon = [] {
    const char* h = std::getenv("VP_HORIZON");
    return h ? static_cast<std::size_t>(std::atoll(h)) : std::size_t(5000000);
  }();
  if (trace.size() > horizon)
    violation(fmt("execution does not terminate (%zu scheduling decisions)", horizon));
  return v;
}

int policy_pick(const int* ranks, const bool* is_event, const bool* is_pre, int n) {
  // an item that has just been preempted is last in the list and never picked by default
  int m = n;
  if (m > 1 && is_pre[m - 1] && cur_policy != FIFO && cur_policy != LATEEVENTS)
    --m;
  switch (cur_policy) {
    case FIFO:
      return 0;
    case LIFO:
      return m - 1;
    case EAGER:
      return m - 1;
    case HIGHRANK: {
      int b = 0;
      for (int i = 1; i < m; ++i)
        if (ranks[i] > ranks[b])
          b = i;
      return b;
    }
    case LOWRANK: {
      int b = m - 1;
      for (int i = m - 1; i >= 0; --i)
        if (ranks[i] < ranks[b])
          b = i;
      return b;
    }
    case LATEEVENTS:
      for (int i = 0; i < n; ++i)
        if (!is_event[i])
          return i;
      return 0;
  }
  return 0;
}

// ---- enumeration ---------------------------------------------------------------------------------
struct Unit {
  int cs, policy, mpi, part, parts;
};

static std::unordered_set<std::uint64_t> seen;

static void exec(const Case& c, const ExecId& id) {
  trace.clear();
  devs.assign(id.dev, id.dev + id.ndev);
  next_dev = 0;
  cur_policy = id.policy;
  cur_mpi = id.mpi;
  cur_case = id.cs;
  trace_hash = 1469598103934665603ull;
  if (slot) {
    slot->id = id;
    slot->ctx[0] = 0;
    slot->running = 1;
  }
  stats = {};
  live = {};
  auto c0 = n_checks, t0 = n_nontrivial;
  hb_on = false;
  const bool use_hb = c.hb && id.ndev == 0 && !std::getenv("VP_NO_HB");
  hb_request = use_hb;
  c.run();
  hb_on = false;
  hb_request = false;
  if (next_dev != devs.size())
    violation("internal: nondeterministic execution (deviation not reached)");
  if (slot) {
    slot->running = 0;
    slot->beat.fetch_add(1, std::memory_order_relaxed);
  }
  if (sh) {
    sh->runs += 1;
    sh->choices += stats.choices;
    sh->tasks += stats.tasks;
    sh->switches += stats.switches;
    sh->events += stats.events;
    sh->checks += n_checks - c0;
    sh->nontrivial += n_nontrivial - t0;
    if (id.ndev > 0)
      sh->devruns += 1;
    auto h = trace_hash ^ (static_cast<std::uint64_t>(id.cs) * 0x9E3779B97F4A7C15ull);
    if (seen.insert(h).second)
      sh->distinct += 1;
  }
}

static void alternatives(int n, int cap, std::vector<int>& out) {
  out.clear();
  if (cap <= 0 || n <= cap) {
    for (int i = 0; i < n; ++i)
      out.push_back(i);
    return;
  }
  for (int i = 0; i < cap / 2; ++i)
    out.push_back(i);
  for (int i = n - (cap - cap / 2); i < n; ++i)
    out.push_back(i);
}

static void explore_unit(const Suite& s, const Unit& u, int ui) {
  const Case& c = s.cases[static_cast<std::size_t>(u.cs)];
  seen.clear();
  ExecId root;
  root.unit = ui;
  root.cs = u.cs;
  root.policy = u.policy;
  root.mpi = u.mpi;
  std::vector<ExecId> stack;
  stack.push_back(root);
  std::uint64_t runs = 0;
  std::uint64_t child_no = 0;
  is_first = true;
  std::vector<int> alts;
  int maxdev = c.max_dev < 0 ? MAXDEV : c.max_dev;
  while (!stack.empty()) {
    if (sh && sh->stop)
      return;
    ExecId id = stack.back();
    stack.pop_back();
    if (c.max_runs && runs >= c.max_runs) {
      sh->capped += 1;
      return;
    }
    exec(c, id);
    ++runs;
    is_first = false;
    if (id.ndev < MAXDEV) {
      std::uint32_t from = id.ndev ? id.dev[id.ndev - 1].pos + 1 : 0;
      auto tr = trace;  // copy: exec overwrites
      for (std::uint32_t p = from; p < tr.size(); ++p) {
        if (!tr[p].data && id.nsched >= maxdev)
          continue;
        alternatives(tr[p].n, tr[p].data ? 0 : c.alt_cap, alts);
        for (int v : alts) {
          if (v == tr[p].def)
            continue;
          if (id.ndev == 0 && static_cast<int>(child_no++ % static_cast<std::uint64_t>(u.parts)) != u.part)
            continue;
          ExecId ch = id;
          ch.dev[ch.ndev++] = {p, v};
          ch.nsched += !tr[p].data;
          stack.push_back(ch);
        }
      }
    }
    else
      sh->capped += 1;
  }
}

// ---- crash handling ------------------------------------------------------------------------------
static void on_signal(int sig) {
  const char* n = sig == SIGSEGV ? "segmentation fault" : sig == SIGABRT ? "abort" : sig == SIGFPE ? "arithmetic exception" : sig == SIGBUS ? "bus error" : "undefined behaviour (overflow, shift, division or array bounds trap)";
  if (slot && !slot->has_msg) {
    std::strncpy(slot->msg, "crash: ", sizeof(slot->msg) - 1);
    std::strncat(slot->msg, n, 100);
    slot->has_msg = 1;
  }
  _exit(77);
}
static std::string captured_err() {
  fflush(stderr);
  char buf[3001];
  off_t e = lseek(2, 0, SEEK_CUR);
  if (e <= 0)
    return {};
  off_t from = e > 3000 ? e - 3000 : 0;
  ssize_t n = pread(2, buf, 3000, from);
  if (n <= 0)
    return {};
  buf[n] = 0;
  return buf;
}
static void on_terminate() {
  std::string m = "terminated";
  if (auto e = std::current_exception()) {
    try {
      std::rethrow_exception(e);
    }
    catch (const std::exception& x) {
      m += std::string(": uncaught exception: ") + x.what();
    }
    catch (...) {
      m += ": uncaught exception";
    }
  }
  std::string err = captured_err();
  if (!err.empty())
    m += ": " + err;
  violation(m);
}
static void install_handlers() {
  std::set_terminate(on_terminate);
  static char alt[65536];
  stack_t ss{};
  ss.ss_sp = alt;
  ss.ss_size = sizeof(alt);
  sigaltstack(&ss, nullptr);
  for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGBUS, SIGILL}) {
    struct sigaction sa{};
    sa.sa_handler = on_signal;
    sa.sa_flags = SA_ONSTACK;
    sigaction(s, &sa, nullptr);
  }
}
static void capture_stderr() {
  int fd = memfd_create("vp-stderr", 0);
  if (fd >= 0) {
    dup2(fd, 2);
    close(fd);
  }
}

static double now() {
  timespec t;
  clock_gettime(CLOCK_MONOTONIC, &t);
  return double(t.tv_sec) + 1e-9 * double(t.tv_nsec);
}

static std::string esc(const std::string& s) {
  std::string o;
  for (char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    }
    else if (c == '\n')
      o += "\\n";
    else if (static_cast<unsigned char>(c) < 0x20)
      o += ' ';
    else
      o += c;
  }
  return o;
}

struct Known {
  std::string prop, cs, msg, text;
};
static std::vector<Known> known;
static void load_known(const std::string& file, const std::string& prop) {
  // lines: finding<TAB>property<TAB>case regex<TAB>message regex<TAB>text
  std::ifstream f(file);
  std::string l;
  while (std::getline(f, l)) {
    if (l.rfind("finding\t", 0) != 0)
      continue;
    std::vector<std::string> p;
    std::stringstream ss(l);
    std::string x;
    while (std::getline(ss, x, '\t'))
      p.push_back(x);
    if (p.size() >= 5 && p[1] == prop)
      known.push_back({p[1], p[2], p[3], p[4]});
  }
}

static void write_replay(const std::string& path, const Suite& s, const ExecId& id, const std::string& msg,
                         const std::string& ctx, bool thorough) {
  std::ofstream f(path);
  f << "# replay of a violation; run: <check binary> --replay <this file>\n";
  f << "property " << s.property << "\n";
  f << "tier " << (thorough ? "thorough" : "quick") << "\n";
  f << "case " << s.cases[static_cast<std::size_t>(id.cs)].name << "\n";
  f << "policy " << id.policy << "\n";
  f << "mpi " << id.mpi << "\n";
  f << "deviations " << id.ndev;
  for (int i = 0; i < id.ndev; ++i)
    f << " " << id.dev[i].pos << ":" << id.dev[i].val;
  f << "\n";
  std::string m = msg;
  std::replace(m.begin(), m.end(), '\n', ' ');
  f << "# message: " << m << "\n";
  if (!ctx.empty())
    f << "# context: " << ctx << "\n";
}

static int replay_main(const Suite& s, const std::string& file) {
  std::ifstream f(file);
  std::string l, name;
  ExecId id;
  while (std::getline(f, l)) {
    std::stringstream ss(l);
    std::string k;
    ss >> k;
    if (k == "case") {
      name = l.substr(5);
    }
    else if (k == "policy")
      ss >> id.policy;
    else if (k == "mpi")
      ss >> id.mpi;
    else if (k == "deviations") {
      ss >> id.ndev;
      for (int i = 0; i < id.ndev; ++i) {
        std::string x;
        ss >> x;
        sscanf(x.c_str(), "%u:%d", &id.dev[i].pos, &id.dev[i].val);
      }
    }
  }
  for (std::size_t i = 0; i < s.cases.size(); ++i)
    if (s.cases[i].name == name)
      id.cs = static_cast<int>(i);
  if (id.cs < 0) {
    fprintf(stderr, "case not found: %s\n", name.c_str());
    return 2;
  }
  replaying = true;
  slot = &local_slot;
  std::set_terminate(on_terminate);
  exec(s.cases[static_cast<std::size_t>(id.cs)], id);
  fprintf(stderr, "replay: no violation\n");
  return 0;
}

int explore_main(int argc, char** argv, const std::function<Suite(bool)>& gen) {
  // deterministic addresses
  if (!std::getenv("VP_NO_REEXEC")) {
    int p = personality(0xffffffff);
    if (p != -1 && !(p & ADDR_NO_RANDOMIZE) && personality(static_cast<unsigned long>(p) | ADDR_NO_RANDOMIZE) != -1) {
      setenv("VP_NO_REEXEC", "1", 1);
      execv("/proc/self/exe", argv);
    }
  }
  bool thorough = false;
  std::string evidence, replay_dir = "/tmp", known_file, replay, only;
  int nw = static_cast<int>(sysconf(_SC_NPROCESSORS_ONLN));
  nw = std::max(1, std::min(nw, 8));
  bool list = false, times = false;
  double limit = 0;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    auto next = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
    if (a == "--thorough")
      thorough = true;
    else if (a == "--evidence")
      evidence = next();
    else if (a == "--replay-dir")
      replay_dir = next();
    else if (a == "--known")
      known_file = next();
    else if (a == "--replay")
      replay = next();
    else if (a == "--case")
      only = next();
    else if (a == "--jobs")
      nw = std::atoi(next().c_str());
    else if (a == "--list")
      list = true;
    else if (a == "--times")
      times = true;
    else if (a == "--limit")
      limit = std::atof(next().c_str());
  }
  if (!replay.empty()) {
    std::ifstream f(replay);
    std::string l;
    while (std::getline(f, l))
      if (l == "tier thorough")
        thorough = true;
  }
  Suite s = gen(thorough);
  if (!replay.empty())
    return replay_main(s, replay);
  double t0 = now();
  if (!only.empty()) {
    std::vector<Case> k;
    std::regex r(only);
    for (auto& c : s.cases)
      if (std::regex_search(c.name, r))
        k.push_back(c);
    s.cases = k;
  }
  if (list) {
    for (auto& c : s.cases)
      printf("%s\n", c.name.c_str());
    return 0;
  }
  load_known(known_file, s.property);
  std::vector<Unit> units;
  for (std::size_t i = 0; i < s.cases.size(); ++i) {
    auto& c = s.cases[i];
    for (int p : c.policies)
      for (int m : c.mpi_modes)
        for (int k = 0; k < c.split; ++k)
          units.push_back({static_cast<int>(i), p, m, k, c.split});
  }
  // larger units first would balance better, but the order of generation is kept for reproducibility
  sh = static_cast<Shared*>(
      mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  new (sh) Shared();
  out_hash = static_cast<std::atomic<std::uint64_t>*>(
      mmap(nullptr, sizeof(std::atomic<std::uint64_t>) * 2 * OUTCOMES, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  for (int i = 0; i < MAXW; ++i)
    sh->slots[i].id = ExecId{};
  fflush(stdout);

  auto spawn_worker = [&](int w) -> pid_t {
    Slot& sl = sh->slots[w];
    sl.has_msg = 0;
    sl.running = 0;
    sl.msg[0] = 0;
    sl.ctx[0] = 0;
    pid_t p = fork();
    if (p == 0) {
      slot = &sl;
      capture_stderr();
      install_handlers();
      while (!sh->stop) {
        int u = sh->next_unit.fetch_add(1);
        if (u >= static_cast<int>(units.size()))
          break;
        double a = now();
        explore_unit(s, units[static_cast<std::size_t>(u)], u);
        if (times && now() - a > 0.5)
          printf("TIME %.2fs case %s policy %d mpi %d part %d\n", now() - a,
                 s.cases[static_cast<std::size_t>(units[static_cast<std::size_t>(u)].cs)].name.c_str(),
                 units[static_cast<std::size_t>(u)].policy, units[static_cast<std::size_t>(u)].mpi,
                 units[static_cast<std::size_t>(u)].part);
        fflush(stdout);
      }
      _exit(0);
    }
    return p;
  };

  struct W {
    pid_t pid = 0;
    std::uint64_t beat = 0;
    double last = 0;
    bool hung = false;
  };
  std::vector<W> ws(static_cast<std::size_t>(nw));
  int alive = 0;
  for (int w = 0; w < nw; ++w) {
    ws[static_cast<std::size_t>(w)].pid = spawn_worker(w);
    ws[static_cast<std::size_t>(w)].last = now();
    ++alive;
  }

  int nviol = 0;
  bool limited = false;
  std::set<std::string> known_hit;
  std::vector<std::string> viol_msgs;
  int retries = 0;
  std::string warn;
  while (alive > 0) {
    int st;
    pid_t p = waitpid(-1, &st, WNOHANG);
    if (p <= 0) {
      usleep(20000);
      double t = now();
      if (limit > 0 && t - t0 > limit && !sh->stop) {
        sh->stop = 1;
        limited = true;
      }
      for (int w = 0; w < nw; ++w) {
        auto& x = ws[static_cast<std::size_t>(w)];
        if (!x.pid)
          continue;
        auto b = sh->slots[w].beat.load();
        if (b != x.beat) {
          x.beat = b;
          x.last = t;
        }
        else if (t - x.last > 150) {
          x.hung = true;
          kill(x.pid, SIGKILL);
          x.last = t;
        }
      }
      continue;
    }
    int w = -1;
    for (int i = 0; i < nw; ++i)
      if (ws[static_cast<std::size_t>(i)].pid == p)
        w = i;
    if (w < 0)
      continue;
    auto& x = ws[static_cast<std::size_t>(w)];
    x.pid = 0;
    --alive;
    if (WIFEXITED(st) && WEXITSTATUS(st) == 0)
      continue;
    Slot& sl = sh->slots[w];
    std::string msg = sl.has_msg ? std::string(sl.msg)
                      : x.hung   ? std::string("execution does not terminate (no progress for 150 s)")
                      : WIFSIGNALED(st) ? fmt("killed by signal %d", WTERMSIG(st))
                                        : fmt("exited with status %d", WIFEXITED(st) ? WEXITSTATUS(st) : -1);
    ExecId id = sl.id;
    std::string ctx = sl.ctx;
    bool hung = x.hung;
    x.hung = false;
    if (!sl.has_msg && !hung && WIFSIGNALED(st) && WTERMSIG(st) == SIGKILL) {
      // ended from outside (memory pressure): run the unit again later
      if (++retries > 20) {
        printf("ERROR: workers get killed\n");
        sh->stop = 1;
        return 2;
      }
      units.push_back(units[static_cast<std::size_t>(id.unit)]);
      x.pid = spawn_worker(w);
      x.last = now();
      ++alive;
      continue;
    }
    const std::string cname = id.cs >= 0 ? s.cases[static_cast<std::size_t>(id.cs)].name : "?";
    bool is_known = false;
    for (auto& k : known)
      if (std::regex_search(cname, std::regex(k.cs)) && std::regex_search(msg, std::regex(k.msg))) {
        is_known = true;
        if (known_hit.insert(k.text).second)
          printf("KNOWN-FINDING: property=%s %s\n", s.property.c_str(), k.text.c_str());
      }
    if (!is_known) {
      mkdir(replay_dir.c_str(), 0777);
      std::string path = replay_dir + "/" + s.property + "-" + std::to_string(nviol) + ".replay";
      // The outcome comparison between schedules needs two executions; everything else replays alone.
      write_replay(path, s, id, msg, ctx, thorough);
      bool confirmed = true;
      if (id.cs >= 0 && msg.find("depends on the schedule") == std::string::npos && !hung) {
        pid_t c = fork();
        if (c == 0) {
          slot = &sh->slots[MAXW - 1];
          slot->has_msg = 0;
          sh->slots[MAXW - 1].id = id;
          capture_stderr();
          install_handlers();
          out_hash = nullptr;
          alarm(140);
          exec(s.cases[static_cast<std::size_t>(id.cs)], id);
          _exit(0);
        }
        int cst;
        waitpid(c, &cst, 0);
        confirmed = !(WIFEXITED(cst) && WEXITSTATUS(cst) == 0);
      }
      if (!confirmed) {
        printf("NOTE: a failure was not reproduced alone (state left by earlier executions?): case %s: %s\n", cname.c_str(),
               msg.c_str());
      }
      if (nviol == 0)
        printf("VIOLATION property=%s replay=%s\n", s.property.c_str(), path.c_str());
      printf("  case: %s policy=%d mpi=%d deviations=%d\n  what: %s\n", cname.c_str(), id.policy, id.mpi, id.ndev,
             msg.c_str());
      if (!ctx.empty())
        printf("  input: %s\n", ctx.c_str());
      fflush(stdout);
      viol_msgs.push_back(cname + ": " + msg);
      ++nviol;
      sh->stop = 1;
    }
    else {
      x.pid = spawn_worker(w);
      x.last = now();
      ++alive;
    }
  }
  double wall = now() - t0;
  bool exhaustive = sh->capped == 0 && !limited && nviol == 0;
  printf("%s: %zu cases, %llu executions (%llu distinct schedules, %llu with deviations), %llu scheduling decisions, "
         "%llu tasks, %llu checks, %llu distinct nontrivial, %s, %.1f s\n",
         s.property.c_str(), s.cases.size(), (unsigned long long) sh->runs, (unsigned long long) sh->distinct,
         (unsigned long long) sh->devruns, (unsigned long long) sh->choices, (unsigned long long) sh->tasks,
         (unsigned long long) sh->checks, (unsigned long long) sh->nontrivial,
         exhaustive ? "exhaustive within bounds" : "not exhaustive", wall);
  if (!evidence.empty()) {
    std::ofstream f(evidence);
    const char* seed = std::getenv("VERIF_SEED");
    auto distinct = std::max<unsigned long long>(sh->nontrivial, 0);
    bool sched = sh->choices > 0;
    f << "{\"property\":\"" << s.property << "\",\"tier\":\"" << (thorough ? "thorough" : "quick") << "\",\"seed\":"
      << (seed ? std::atoi(seed) : 0) << ",\"level\":\"exploration\",\"coverage\":{";
    f << "\"evaluations\":" << (sched ? (unsigned long long) sh->runs : (unsigned long long) sh->checks)
      << ",\"distinct_nontrivial\":" << (sched ? (unsigned long long) sh->distinct : distinct) << ",\"rule\":\""
      << esc(s.rule) << "\",\"exhaustive\":" << (exhaustive ? "true" : "false") << ",\"samples\":[";
    bool first = true;
    auto add = [&](const std::string& x) {
      f << (first ? "" : ",") << "\"" << esc(x) << "\"";
      first = false;
    };
    for (auto& x : s.samples)
      add(x);
    for (std::size_t i = 0; i < s.cases.size(); i += std::max<std::size_t>(1, s.cases.size() / 5))
      add("case " + s.cases[i].name);
    f << "],\"cases\":" << s.cases.size();
    if (sched)
      f << ",\"executions_with_deviations\":" << sh->devruns << ",\"scheduling_decisions\":" << sh->choices
        << ",\"tasks\":" << sh->tasks << ",\"task_switches\":" << sh->switches << ",\"completion_events\":" << sh->events
        << ",\"oracle_checks\":" << sh->checks << ",\"nontrivial_inputs\":" << sh->nontrivial;
    else if (sh->runs != s.cases.size())
      f << ",\"executions\":" << sh->runs;
    f << "},\"wall_s\":" << wall << ",\"violations\":" << nviol << "}\n";
  }
  if (nviol)
    return 1;
  return 0;
}
}
