// P30: configuration sources and the life cycle of the library.
// All combinations of the sources (command line, environment, user configuration, default) of every parameter and of every
// pair of parameters, all spellings of booleans and layouts, and all histories of initialise/finalise operations up to a
// bound are executed on the real code and compared with the documented rules.
#include <sys/wait.h>
#include <unistd.h>

#include <cmath>
#include <cstdlib>
#include <iostream>
#include <map>
#include <sstream>

#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/init.h>
#include <dlaf/matrix/allocation_io.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/tune.h>
#include <dlaf_c/init.h>

#include "sched.hpp"

using namespace dlaf;
using vp::pick;

// the same in the copy of the code for GPU builds
extern "C" void p30_gpu_initialize__r0(int argc, const char* const* argv, const dlaf::configuration*);
extern "C" void p30_gpu_finalize__r0();

namespace {
enum Kind { SIZE, STYPE, REAL, BOOL, LAYOUT };
struct Param {
  const char* name;
  const char* opt;  // nullptr: only from the environment
  Kind kind;
  void* (*where)(configuration&, TuneParameters&);
  bool tune;
  std::string env() const {
    std::string s = name;
    for (auto& c : s)
      c = char(toupper(c));
    return "DLAF_" + s;
  }
};
#define CFG(n, o, k) {#n, "dlaf:" o, k, [](configuration& c, TuneParameters&) -> void* { return &c.n; }, false}
#define TUNE(n, o, k) {#n, "dlaf:" o, k, [](configuration&, TuneParameters& t) -> void* { return &t.n; }, true}
#define DUMP(n) {"debug_dump_" #n "_data", nullptr, BOOL, [](configuration&, TuneParameters& t) -> void* { return &t.debug_dump_##n##_data; }, true}
const Param params[] = {
    CFG(print_config, "print-config", BOOL),
#if PIKA_VERSION_FULL >= 0x001F00
    CFG(num_np_gpu_streams, "num-np-gpu-streams", SIZE),
    CFG(num_hp_gpu_streams, "num-hp-gpu-streams", SIZE),
#else
    CFG(num_np_gpu_streams_per_thread, "num-np-gpu-streams-per-thread", SIZE),
    CFG(num_hp_gpu_streams_per_thread, "num-hp-gpu-streams-per-thread", SIZE),
#endif
    CFG(umpire_host_memory_pool_initial_block_bytes, "umpire-host-memory-pool-initial-block-bytes", SIZE),
    CFG(umpire_host_memory_pool_next_block_bytes, "umpire-host-memory-pool-next-block-bytes", SIZE),
    CFG(umpire_host_memory_pool_alignment_bytes, "umpire-host-memory-pool-alignment-bytes", SIZE),
    CFG(umpire_host_memory_pool_coalescing_free_ratio, "umpire-host-memory-pool-coalescing-free-ratio", REAL),
    CFG(umpire_host_memory_pool_coalescing_reallocation_ratio, "umpire-host-memory-pool-coalescing-reallocation-ratio", REAL),
    CFG(umpire_device_memory_pool_initial_block_bytes, "umpire-device-memory-pool-initial-block-bytes", SIZE),
    CFG(umpire_device_memory_pool_next_block_bytes, "umpire-device-memory-pool-next-block-bytes", SIZE),
    CFG(umpire_device_memory_pool_alignment_bytes, "umpire-device-memory-pool-alignment-bytes", SIZE),
    CFG(umpire_device_memory_pool_coalescing_free_ratio, "umpire-device-memory-pool-coalescing-free-ratio", REAL),
    CFG(umpire_device_memory_pool_coalescing_reallocation_ratio, "umpire-device-memory-pool-coalescing-reallocation-ratio", REAL),
    CFG(num_gpu_blas_handles, "num-gpu-blas-handles", SIZE),
    CFG(num_gpu_lapack_handles, "num-gpu-lapack-handles", SIZE),
    TUNE(default_allocation_layout, "default_allocation_layout", LAYOUT),
    TUNE(tfactor_num_threads, "tfactor-num-threads", SIZE),
    TUNE(tfactor_num_streams, "tfactor-num-streams", SIZE),
    TUNE(tfactor_barrier_busy_wait_us, "tfactor-barrier-busy-wait-us", SIZE),
    TUNE(red2band_panel_num_threads, "red2band-panel-num-threads", SIZE),
    TUNE(red2band_barrier_busy_wait_us, "red2band-barrier-busy-wait-us", SIZE),
    TUNE(tridiag_rank1_num_threads, "tridiag-rank1-num-threads", SIZE),
    TUNE(tridiag_rank1_barrier_busy_wait_us, "tridiag-rank1-barrier-busy-wait-us", SIZE),
    TUNE(eigensolver_min_band, "eigensolver-min-band", STYPE),
    TUNE(band_to_tridiag_1d_block_size_base, "band-to-tridiag-1d-block-size-base", STYPE),
    TUNE(bt_band_to_tridiag_hh_apply_group_size, "bt-band-to-tridiag-hh-apply-group-size", STYPE),
    TUNE(communicator_grid_num_pipelines, "communicator-grid-num-pipelines", SIZE),
    DUMP(cholesky_factorization),
    DUMP(generalized_to_standard),
    DUMP(generalized_eigensolver),
    DUMP(eigensolver),
    DUMP(reduction_to_band),
    DUMP(band_to_tridiagonal),
    DUMP(inverse_from_cholesky_factor),
    DUMP(triangular_inverse),
    DUMP(tridiag_solver),
};
constexpr int NP = sizeof(params) / sizeof(*params);

// values in the form in which they get compared
const std::vector<std::string>& values(Kind k) {
  static const std::vector<std::string> v[] = {{"0", "1", "7", "4294967296", "18446744073709551615"},
                                               {"1", "7", "2147483648", "9223372036854775807"},
                                               {"0", "0.25", "1.5", "0.001", "1e+100"},
                                               {"0", "1"},
                                               {"ColMajor", "Blocks", "Tiles"}};
  return v[k];
}
std::string get(const Param& p, configuration& c, TuneParameters& t) {
  const void* w = p.where(c, t);
  switch (p.kind) {
    case SIZE:
      return std::to_string(*static_cast<const std::size_t*>(w));
    case STYPE:
      return std::to_string(*static_cast<const SizeType*>(w));
    case REAL:
      return vp::fmt("%.17g", *static_cast<const double*>(w));
    case BOOL:
      return *static_cast<const bool*>(w) ? "1" : "0";
    case LAYOUT:
      switch (*static_cast<const matrix::AllocationLayout*>(w)) {
        case matrix::AllocationLayout::ColMajor:
          return "ColMajor";
        case matrix::AllocationLayout::Blocks:
          return "Blocks";
        case matrix::AllocationLayout::Tiles:
          return "Tiles";
      }
  }
  return "?";
}
std::string canon(Kind k, const std::string& v) {
  return k == REAL ? vp::fmt("%.17g", strtod(v.c_str(), nullptr)) : v;
}
void set(const Param& p, configuration& c, TuneParameters& t, const std::string& v) {
  void* w = p.where(c, t);
  switch (p.kind) {
    case SIZE:
      *static_cast<std::size_t*>(w) = strtoull(v.c_str(), nullptr, 10);
      break;
    case STYPE:
      *static_cast<SizeType*>(w) = strtoll(v.c_str(), nullptr, 10);
      break;
    case REAL:
      *static_cast<double*>(w) = strtod(v.c_str(), nullptr);
      break;
    case BOOL:
      *static_cast<bool*>(w) = v == "1";
      break;
    case LAYOUT:
      *static_cast<matrix::AllocationLayout*>(w) = v == "ColMajor" ? matrix::AllocationLayout::ColMajor
                                                   : v == "Blocks" ? matrix::AllocationLayout::Blocks
                                                                   : matrix::AllocationLayout::Tiles;
  }
}

struct capture {
  std::ostringstream out;
  std::streambuf* old;
  capture() : old(std::cout.rdbuf(out.rdbuf())) {}
  ~capture() {
    std::cout.rdbuf(old);
  }
};

// the inputs of one initialisation
struct Run {
  std::vector<std::string> args{"program"};
  std::map<std::string, std::string> env;
  configuration user;
  std::string text() const {
    std::string s;
    for (auto& [k, v] : env)
      s += k + "=" + v + " ";
    for (auto& a : args)
      s += a + " ";
    return s;
  }
  void operator()() {
    for (auto& [k, v] : env)
      setenv(k.c_str(), v.c_str(), 1);
    std::vector<const char*> argv;
    for (auto& a : args)
      argv.push_back(a.c_str());
    struct clean {
      Run& r;
      ~clean() {
        for (auto& [k, v] : r.env)
          unsetenv(k.c_str());
      }
    } c{*this};
    if (gpu)
      p30_gpu_initialize__r0(int(argv.size()), argv.data(), &user);
    else
      initialize(int(argv.size()), argv.data(), user);
  }
  bool gpu = false;
};

int polling() {
  return pika::vp_detail::life().polling;
}

std::map<std::string, std::string> parse_printed(const std::string& s) {
  std::map<std::string, std::string> m;
  std::istringstream is(s);
  std::string l;
  while (std::getline(is, l)) {
    const auto e = l.find(" = ");
    if (e == std::string::npos)
      continue;
    const auto b = l.find_first_not_of(' ');
    VP_CHECK(m.emplace(l.substr(b, e - b), l.substr(e + 3)).second, "%s is printed twice", l.c_str());
  }
  return m;
}

// Initialises with the given sources of some parameters and compares every parameter with what it has to be.
// source bits: 1 user configuration, 2 environment, 4 command line
struct Source {
  int param;
  std::string user, env, cmd;  // empty: not given
  bool separate = false;       // value of the option in an argument of its own
};
void run_sources(const std::vector<Source>& ss, bool printed) {
  getTuneParameters() = TuneParameters();
  Run r;
  std::map<int, std::string> expected;
  {
    configuration c;
    for (int i = 0; i < NP; ++i)
      expected[i] = get(params[i], c, getTuneParameters());
  }
  std::string users;
  for (const auto& s : ss) {
    const Param& p = params[s.param];
    if (!s.user.empty()) {
      set(p, r.user, getTuneParameters(), s.user);
      users += std::string(p.name) + "=" + s.user + " by the user ";
      expected[s.param] = canon(p.kind, s.user);
    }
    if (!s.env.empty()) {
      r.env[p.env()] = s.env;
      expected[s.param] = canon(p.kind, s.env);
    }
    if (!s.cmd.empty()) {
      if (p.kind == BOOL)
        r.args.push_back(std::string("--") + p.opt);
      else if (s.separate) {
        r.args.push_back(std::string("--") + p.opt);
        r.args.push_back(s.cmd);
      }
      else
        r.args.push_back(std::string("--") + p.opt + "=" + s.cmd);
      expected[s.param] = canon(p.kind, s.cmd);
    }
  }
  if (printed)
    r.args.push_back("--dlaf:print-config"), expected[0] = "1";
  vp::context(users + r.text());
  std::string out;
  {
    capture c;
    r();
    out = c.out.str();
  }
  auto& c = internal::getConfiguration();
  for (int i = 0; i < NP; ++i)
    VP_CHECK(get(params[i], c, getTuneParameters()) == expected[i], "%s is %s instead of %s", params[i].name, get(params[i], c, getTuneParameters()).c_str(),
             expected[i].c_str());
  VP_CHECK(out.empty() == (expected[0] == "0"), "the configuration is printed exactly when asked for");
  if (expected[0] == "1") {
    auto m = parse_printed(out);
    for (int i = 1; i < NP; ++i) {
      if (!strncmp(params[i].name, "debug_", 6))
        continue;
      auto it = m.find(params[i].name);
      VP_CHECK(it != m.end(), "%s is not printed", params[i].name);
      if (params[i].kind == REAL) {
        const double v = strtod(expected[i].c_str(), nullptr);
        VP_CHECK(std::abs(strtod(it->second.c_str(), nullptr) - v) <= 1e-5 * std::abs(v), "%s is printed as %s", params[i].name, it->second.c_str());
      }
      else
        VP_CHECK(it->second == expected[i], "%s is printed as %s instead of %s", params[i].name, it->second.c_str(), expected[i].c_str());
    }
  }
  finalize();
  VP_CHECK(polling() == 0, "polling goes on after finalize");
  {
    configuration d;
    TuneParameters t;
    for (int i = 0; i < NP; ++i)
      if (!params[i].tune)
        VP_CHECK(get(params[i], internal::getConfiguration(), t) == get(params[i], d, t), "%s survives finalize", params[i].name);
  }
  ++vp::n_nontrivial;
}

void single() {
  vp::mpi_set_initialized(true);
  for (int i = 0; i < NP; ++i) {
    const auto& vs = values(params[i].kind);
    const int n = int(vs.size());
    for (int u = -1; u < n; ++u)
      for (int e = -1; e < n; ++e)
        for (int c = -1; c < (params[i].opt ? n : 0); ++c)
          for (int sep = 0; sep < 2; ++sep) {
            if (params[i].kind == BOOL && c == 0)
              continue;
            run_sources({{i, u < 0 ? "" : vs[to_sizet(u)], e < 0 ? "" : vs[to_sizet(e)], c < 0 ? "" : vs[to_sizet(c)], bool(sep)}}, i != 0 && (u + e + c) % 3 == 0);
          }
  }
}
void pairs() {
  vp::mpi_set_initialized(true);
  for (int i = 0; i < NP; ++i)
    for (int j = i + 1; j < NP; ++j)
      for (int a = 1; a < 8; ++a)
        for (int b = 1; b < 8; ++b) {
          auto src = [](int p, int bits, int k) {
            const auto& v = values(params[p].kind);
            auto val = [&](int d) { return v[to_sizet((k + d) % int(v.size()))]; };
            Source s{p, bits & 1 ? val(0) : "", bits & 2 ? val(1) : "", (bits & 4) && params[p].opt ? val(2) : ""};
            if (params[p].kind == BOOL && !s.cmd.empty())
              s.cmd = "1";
            return s;
          };
          run_sources({src(i, a, 0), src(j, b, 1)}, false);
        }
}

// runs f in a process of its own; the exit status, or -1
template <class F>
int forked(F&& f) {
  fflush(nullptr);
  const pid_t p = fork();
  if (p == 0) {
    f();
    _exit(77);
  }
  int st = 0;
  waitpid(p, &st, 0);
  return WIFEXITED(st) ? WEXITSTATUS(st) : -1;
}

template <class F>
void spellings(std::string s, F&& f) {
  for (unsigned m = 0; m < 1u << s.size(); ++m) {
    std::string v = s;
    for (std::size_t k = 0; k < s.size(); ++k)
      v[k] = char(m >> k & 1 ? toupper(s[k]) : tolower(s[k]));
    f(v);
  }
}
// whether initialisation with these sources gets refused, by an exception or by terminating
bool refused(Run& r) {
  bool threw = false;
  const bool d = vp::dies([&] {
    capture c;
    try {
      r();
    }
    catch (const std::exception&) {
      threw = true;
    }
  });
  for (auto& [k, v] : r.env)
    unsetenv(k.c_str());
  return d || threw;
}
void spellings_and_rejections() {
  vp::mpi_set_initialized(true);
  for (int i = 0; i < NP; ++i) {
    const Param& p = params[i];
    auto try_env = [&](const std::string& v, const char* expect) {
      getTuneParameters() = TuneParameters();
      Run r;
      r.env[p.env()] = v;
      if (p.kind == BOOL && i == 0)
        r.user.print_config = expect && expect[0] == '0';
      vp::context(r.text());
      auto* old = std::cout.rdbuf(nullptr);
      const bool ref = refused(r);
      std::cout.rdbuf(old);
      VP_CHECK(ref == !expect, "%s", expect ? "a valid value is refused" : "an invalid value is accepted");
      if (expect) {
        VP_CHECK(get(p, internal::getConfiguration(), getTuneParameters()) == expect, "value %s instead of %s",
                 get(p, internal::getConfiguration(), getTuneParameters()).c_str(), expect);
        finalize();
      }
      VP_CHECK(polling() == 0, "polling without being initialised");
      ++vp::n_nontrivial;
    };
    auto try_cmd = [&](const std::string& a, bool ok) {
      getTuneParameters() = TuneParameters();
      Run r;
      r.args.push_back(a);
      vp::context(r.text());
      VP_CHECK(refused(r) == !ok, "%s", ok ? "a valid argument is refused" : "an invalid argument is accepted");
      if (ok)
        finalize();
      VP_CHECK(polling() == 0, "polling without being initialised");
      ++vp::n_nontrivial;
    };
    if (p.kind == BOOL) {
      for (const char* s : {"on", "true", "yes", "1"})
        spellings(s, [&](const std::string& v) { try_env(v, "1"); });
      for (const char* s : {"off", "false", "no", "0"})
        spellings(s, [&](const std::string& v) { try_env(v, "0"); });
      for (const char* s : {"", " ", "2", "-1", "O", "onn", "on ", " on", "tru", "y", "n", "00", "01", "11", "of", "offf", "yesno"})
        try_env(s, nullptr);
    }
    else if (p.kind == LAYOUT) {
      for (const char* s : {"ColMajor", "Blocks", "Tiles"}) {
        spellings(s, [&](const std::string& v) {
          try_env(v, s);
          try_cmd(std::string("--") + p.opt + "=" + v, true);
        });
        for (const std::string& bad : {std::string(s) + "x", std::string(s).substr(1), std::string(" ") + s, std::string(s) + " "}) {
          try_env(bad, nullptr);
          try_cmd(std::string("--") + p.opt + "=" + bad, false);
        }
      }
      for (const char* bad : {" ", "0", "rowmajor", "tile", "block"})
        try_env(bad, nullptr);
    }
    else {
      for (const char* s : {"", "abc", "x1", "--", "99999999999999999999999999"}) {
        if (p.kind == REAL && s[0] == '9')
          continue;
        try_env(s, nullptr);
        try_cmd(std::string("--") + p.opt + "=" + s, false);
      }
      for (const char* s : {"12abc", "1 2"})
        try_cmd(std::string("--") + p.opt + "=" + s, false);
      if (p.kind == REAL) {
        try_env("1e999", nullptr);
      }
      try_cmd(std::string("--") + p.opt, false);
    }
  }
  for (const char* a : {"--dlaf:unknown", "--dlaf:unknown=3", "--dlaf:num-gpu-blas-handle-s=3"}) {
    Run r;
    r.args.push_back(a);
    vp::context(a);
    VP_CHECK(refused(r), "an unknown option is accepted");
  }
}

// ---- life cycle
void histories(int depth) {
  vp::mpi_set_initialized(true);
  bool on = false, mpi = false;
  std::string h;
  for (int k = 0; k < depth; ++k) {
    const int op = pick(6);
    if (op < 4) {  // initialise; in two forms, with and without MPI
      const bool with_mpi = op & 1;
      h += std::string(op & 2 ? " initialize(vm" : " initialize(argv") + (with_mpi ? ")" : ", no MPI)");
      vp::context(h);
      vp::mpi_set_initialized(with_mpi);
      const bool dead = vp::dies([&] {
        configuration c;
        c.num_gpu_blas_handles = to_sizet(100 + k);
        if (op & 2) {
          pika::program_options::variables_map vm;
          initialize(vm, c);
        }
        else {
          const char* argv[] = {"program"};
          initialize(1, argv, c);
        }
      });
      VP_CHECK(dead == on, "initialising is refused exactly when already initialised");
      if (dead)
        break;
      on = true;
      mpi = with_mpi;
      VP_CHECK(internal::getConfiguration().num_gpu_blas_handles == to_sizet(100 + k), "configuration of this initialisation");
    }
    else if (op == 4) {
      h += " finalize";
      vp::context(h);
      const bool dead = vp::dies([&] { finalize(); });
      VP_CHECK(dead == !on, "finalising is refused exactly when not initialised");
      if (dead)
        break;
      on = false;
      VP_CHECK(internal::getConfiguration().num_gpu_blas_handles == configuration{}.num_gpu_blas_handles, "the configuration survives finalize");
    }
    else {
      if (on)
        break;  // covered by initialise twice
      h += " scoped";
      vp::context(h);
      vp::mpi_set_initialized(true);
      {
        const char* argv[] = {"program", "--dlaf:num-gpu-blas-handles=5"};
        ScopedInitializer s(2, argv);
        VP_CHECK(polling() == 1, "the scope does not initialise");
        VP_CHECK(internal::getConfiguration().num_gpu_blas_handles == 5, "configuration of the scope");
      }
      {
        pika::program_options::variables_map vm;
        ScopedInitializer s(vm);
        VP_CHECK(polling() == 1, "the scope does not initialise");
      }
    }
    VP_CHECK(polling() == (on && mpi ? 1 : 0), "%d users of MPI polling while %s", polling(), on ? "initialised" : "not initialised");
  }
  // leave the process as it was
  if (polling() < 0)
    VP_CHECK(false, "stopped polling that was not started");
  if (on) {
    while (!vp::dies([] { finalize(); }))
      ;
  }
  pika::vp_detail::life().polling = 0;
  vp::mpi_set_initialized(true);
  ++vp::n_nontrivial;
}

void c_histories(int depth) {
  using pika::vp_detail::life;
  vp::ranks(1, 2, [&](int) {
    pika::vp_detail::not_started();
    bool on = false;
    int starts = 0;
    std::string h;
    for (int k = 0; k < depth; ++k) {
      const int op = pick(3);
      if (op < 2) {
        h += op ? " initialize(args)" : " initialize";
        vp::context(h);
        const char* pargv[] = {"program"};
        const std::string a = "--dlaf:num-gpu-blas-handles=" + std::to_string(100 + k);
        const char* argv[] = {"program", a.c_str()};
        const std::size_t before = internal::getConfiguration().num_gpu_blas_handles;
        dlaf_initialize(1, pargv, 1 + op, argv);
        VP_CHECK(internal::getConfiguration().num_gpu_blas_handles == (on ? before : op ? to_sizet(100 + k) : configuration{}.num_gpu_blas_handles),
                 "configuration after initialising");
        if (!on)
          ++starts;
        on = true;
      }
      else {
        h += " finalize";
        vp::context(h);
        dlaf_finalize();
        on = false;
        VP_CHECK(internal::getConfiguration().num_gpu_blas_handles == configuration{}.num_gpu_blas_handles, "the configuration survives");
      }
      VP_CHECK(life().starts == starts && life().stops == starts - on, "%d starts and %d stops of the runtime instead of %d and %d", life().starts, life().stops, starts,
               starts - on);
      VP_CHECK(life().started == on && life().suspended == on && !life().finalized, "state of the runtime");
      VP_CHECK(polling() == on, "polling");
      VP_CHECK(life().resumes == life().suspends - on, "suspended and resumed");
    }
    if (on)
      dlaf_finalize();
    pika::vp_detail::back_to_default();
  });
  ++vp::n_nontrivial;
}

void defaults_by_threads() {
  for (int n = 1; n <= 9; ++n)
    vp::ranks(1, n, [&](int) {
      vp::context(vp::fmt("%d threads", n));
      TuneParameters t;
      VP_CHECK(t.tfactor_num_threads >= 1 && t.tfactor_num_threads <= to_sizet(n) && t.red2band_panel_num_threads >= 1 && t.red2band_panel_num_threads <= to_sizet(n) &&
                   t.tridiag_rank1_num_threads >= 1 && t.tridiag_rank1_num_threads <= to_sizet(n),
               "default numbers of threads");
      VP_CHECK(t.communicator_grid_num_pipelines >= 1 && t.eigensolver_min_band >= 1 && t.band_to_tridiag_1d_block_size_base >= 1 && t.bt_band_to_tridiag_hh_apply_group_size >= 1,
               "defaults");
      ++vp::n_nontrivial;
    });
}

// effects of parameters on the objects that take their default from them
void defaults_used() {
  vp::mpi_set_initialized(true);
  const int layout = pick(3), np = 1 + pick(3);
  vp::ranks(1, 1, [&](int) {
    getTuneParameters() = TuneParameters();
    {
      const std::string a = std::string("--dlaf:default_allocation_layout=") + values(LAYOUT)[to_sizet(layout)], b = "--dlaf:communicator-grid-num-pipelines=" + std::to_string(np);
      vp::context(a + " " + b);
      const char* argv[] = {"program", a.c_str(), b.c_str()};
      ScopedInitializer s(3, argv);
      comm::CommunicatorGrid grid(MPI_COMM_WORLD, 1, 1, common::Ordering::ColumnMajor);
      VP_CHECK(grid.num_pipelines() == to_sizet(np), "number of pipelines of a grid");
      Matrix<double, Device::CPU> m({5, 4}, {2, 2});
      const auto want = layout == 0 ? matrix::AllocationLayout::ColMajor : layout == 1 ? matrix::AllocationLayout::Blocks : matrix::AllocationLayout::Tiles;
      VP_CHECK(m.allocation_layout() == want, "default layout of a matrix");
    }
    getTuneParameters() = TuneParameters();
  });
  ++vp::n_nontrivial;
}

// In GPU builds: each parameter of the memory pools and of the GPU reaches the pool it belongs to. (The pools are made once
// per process, hence a process per configuration.)
void gpu_pools() {
  vp::mpi_set_initialized(true);
  // one parameter differs from the default, or all of them at once
  for (int i = -1; i < NP; ++i)
    for (int source = 0; source < 3; ++source) {
      if (i >= 0 && (params[i].tune || params[i].kind == BOOL))
        continue;
      Run r;
      r.gpu = true;
      configuration want;
      TuneParameters t;
      for (int k = 0; k < NP; ++k) {
        if ((i >= 0 && k != i) || params[k].tune || params[k].kind == BOOL)
          continue;
        const std::string v = params[k].kind == REAL ? vp::fmt("%.17g", 0.125 * (k + 1)) : std::to_string(1000 + k);
        set(params[k], want, t, v);
        if (source == 0)
          set(params[k], r.user, t, v);
        else if (source == 1)
          r.env[params[k].env()] = v;
        else
          r.args.push_back(std::string("--") + params[k].opt + "=" + v);
      }
      vp::context(vp::fmt("GPU build, %s from source %d", i < 0 ? "all parameters" : params[i].name, source));
      const int st = forked([&] {
        int bad = 0;
        auto fail = [&](int k) {
          if (!bad)
            bad = k;
        };
        auto& ps = vp::pool_specs();
        ps.clear();
        r();
        // once only
        p30_gpu_finalize__r0();
        r();
        int n = 0;
        for (int dev = 0; dev < 2; ++dev)
          for (auto& p : ps) {
            if (p.parent != (dev ? "DEVICE" : "PINNED"))
              continue;
            ++n;
            const auto initial = dev ? want.umpire_device_memory_pool_initial_block_bytes : want.umpire_host_memory_pool_initial_block_bytes;
            const auto next = dev ? want.umpire_device_memory_pool_next_block_bytes : want.umpire_host_memory_pool_next_block_bytes;
            const auto align = dev ? want.umpire_device_memory_pool_alignment_bytes : want.umpire_host_memory_pool_alignment_bytes;
            const auto fr = dev ? want.umpire_device_memory_pool_coalescing_free_ratio : want.umpire_host_memory_pool_coalescing_free_ratio;
            const auto re = dev ? want.umpire_device_memory_pool_coalescing_reallocation_ratio : want.umpire_host_memory_pool_coalescing_reallocation_ratio;
            if (p.initial != initial)
              fail(10 + dev);
            if (p.next != next)
              fail(12 + dev);
            if (p.alignment != align)
              fail(14 + dev);
            for (std::size_t actual : {0, 800, 1600})
              for (std::size_t blocks : {0, 1, 2, 3})
                for (std::size_t rel = 0; rel <= actual; rel += 100) {
                  const bool c = blocks >= 2 && double(rel) >= std::floor(fr * double(actual));
                  if (p.coalesce(actual, blocks, rel) != (c ? std::size_t(re * double(actual)) : 0))
                    fail(16 + dev);
                }
          }
        if (n != 2)
          fail(18);
        const auto& g = vp::gpu_pool_args();
#if PIKA_VERSION_FULL >= 0x001F00
        if (g.np_streams != want.num_np_gpu_streams || g.hp_streams != want.num_hp_gpu_streams)
#else
        if (g.np_streams != want.num_np_gpu_streams_per_thread || g.hp_streams != want.num_hp_gpu_streams_per_thread)
#endif
          fail(19);
        if (g.blas_handles != want.num_gpu_blas_handles || g.lapack_handles != want.num_gpu_lapack_handles)
          fail(20);
        _exit(bad);
      });
      static const char* const what[] = {"initial block of the host pool",     "initial block of the device pool", "next block of the host pool", "next block of the device pool",
                                         "alignment of the host pool",         "alignment of the device pool",     "coalescing of the host pool", "coalescing of the device pool",
                                         "number of pools",                    "GPU streams",                      "GPU handles"};
      VP_CHECK(st == 0, "%s", st >= 10 && st <= 20 ? what[st - 10] : vp::fmt("status %d", st).c_str());
      ++vp::n_nontrivial;
    }
}

void processes() {
  vp::mpi_set_initialized(true);
  vp::context("--dlaf:help");
  VP_CHECK(forked([] {
             fclose(stdout);
             std::ostringstream os;
             std::cout.rdbuf(os.rdbuf());
             const char* argv[] = {"program", "--dlaf:help"};
             initialize(2, argv);
           }) == 0,
           "help does not end the program successfully");
  {
    const auto d = getOptionsDescription();
    for (const auto& p : params)
      if (p.opt)
        VP_CHECK(d.find_nothrow(p.opt, false) != nullptr, "option %s does not exist", p.opt);
  }
  vp::context("MPI support for threads");
  for (int l : {MPI_THREAD_SINGLE, MPI_THREAD_FUNNELED, MPI_THREAD_SERIALIZED, MPI_THREAD_MULTIPLE}) {
    vp::mpi_thread_level() = l;
    bool aborted = false;
    auto* old = std::cerr.rdbuf(nullptr);
    try {
      const char* argv[] = {"program"};
      vp::mpi_abort_throws() = true;
      initialize(1, argv);
      finalize();
    }
    catch (const vp::mpi_aborted&) {
      aborted = true;
    }
    std::cerr.rdbuf(old);
    vp::mpi_abort_throws() = false;
    vp::mpi_thread_level() = MPI_THREAD_MULTIPLE;
    VP_CHECK(aborted == (l != MPI_THREAD_MULTIPLE), "MPI with thread level %d", l);
    VP_CHECK(polling() == 0, "polling");
  }
  ++vp::n_nontrivial;
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P30";
    s.rule = "all combinations of user configuration, environment and command line of every parameter and pair of parameters, all spellings of booleans and layouts, malformed values, and all histories of "
             "initialise/finalise operations (C++ and C interface, with and without MPI) up to the depth; non-trivial: an initialisation or a history";
    s.cases.push_back(vp::data_case("sources of each parameter", single));
    s.cases.push_back(vp::data_case("sources of pairs of parameters", pairs));
    s.cases.push_back(vp::data_case("spellings and rejections", spellings_and_rejections));
    s.cases.push_back(vp::data_case("help and MPI levels", processes));
    s.cases.push_back(vp::data_case("memory pools of GPU builds", gpu_pools));
    s.cases.push_back(vp::data_case("defaults by number of threads", defaults_by_threads));
    s.cases.push_back(vp::history_case("effect of defaults", defaults_used, 1));
    s.cases.push_back(vp::history_case("histories", [=] { histories(thorough ? 8 : 5); }, 2));
    s.cases.push_back(vp::history_case("histories of the C API", [=] { c_histories(thorough ? 9 : 6); }, 2));
    return s;
  });
}
