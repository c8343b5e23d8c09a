// P34: single-threaded BLAS scopes force one thread and restore the previous setting, for every nesting.
#include <array>
#include <condition_variable>
#include <memory>
#include <mutex>
#include <thread>
#include <vector>

#include <omp.h>

#include <dlaf/common/single_threaded_blas.h>

#include "pure.hpp"

using vp::pick;
using Scope = dlaf::common::internal::SingleThreadedBlasScope;

// One thread's view of its settings
struct Agent {
  std::vector<std::unique_ptr<Scope>> live;
  std::vector<int> saved;
  int setting;
  Agent() : setting(omp_get_max_threads()) {}
  void step(int op, int maxlive) {
    static const int values[4] = {1, 2, 3, 7};
    if (op == 0) {
      if (int(live.size()) < maxlive) {
        saved.push_back(setting);
        live.push_back(std::make_unique<Scope>());
        setting = 1;
      }
    }
    else if (op == 1) {
      if (!live.empty()) {
        live.pop_back();
        setting = saved.back();
        saved.pop_back();
      }
    }
    else {
      setting = values[op - 2];
      omp_set_num_threads(setting);
    }
    check();
  }
  void check() const {
    VP_CHECK(omp_get_max_threads() == setting, "%d threads instead of %d with %zu scopes", omp_get_max_threads(), setting, live.size());
  }
  void unwind() {
    while (!live.empty())
      step(1, 0);
  }
};

static void histories(int depth) {
  omp_set_num_threads(5);
  Agent a;
  for (int d = 0; d < depth; ++d)
    a.step(pick(6), 4);
  a.unwind();
  ++vp::n_nontrivial;
}

// the team really used by a parallel region
static void region() {
  omp_set_dynamic(0);
  for (int n = 1; n <= 4; ++n) {
    omp_set_num_threads(n);
    auto team = [] {
      int t = 0;
#pragma omp parallel
#pragma omp single
      t = omp_get_num_threads();
      return t;
    };
    VP_CHECK(team() == n, "team before the scope");
    {
      Scope s;
      VP_CHECK(team() == 1, "parallel region with %d threads inside the scope", team());
      {
        Scope t;
        VP_CHECK(team() == 1, "inner");
      }
      VP_CHECK(team() == 1, "parallel region with %d threads after an inner scope", team());
    }
    VP_CHECK(team() == n, "team after the scope");
    ++vp::n_nontrivial;
  }
}

// Two threads take steps in every order: the settings of one do not leak into the other
static void two_threads(int depth) {
  std::vector<std::array<int, 2>> plan;
  for (int d = 0; d < depth; ++d) {
    const int who = pick(2);
    plan.push_back({who, pick(4)});
  }
  std::mutex m;
  std::condition_variable cv;
  std::size_t at = 0;
  std::string failed;
  auto run = [&](int id) {
    omp_set_num_threads(id + 4);
    Agent a;
    for (std::size_t k = 0; k < plan.size(); ++k) {
      std::unique_lock<std::mutex> l(m);
      cv.wait(l, [&] { return at == k || plan[k][0] != id; });
      if (plan[k][0] == id) {
        a.step(plan[k][1], 3);
        ++at;
        cv.notify_all();
      }
      a.check();
    }
    a.unwind();
  };
  std::thread t0(run, 0), t1(run, 1);
  t0.join();
  t1.join();
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P34";
    s.rule = "all sequences of opening a scope, closing the innermost one and setting the thread count to 1, 2, 3 or 7, on one thread and interleaved on two threads; "
             "non-trivial: a complete history";
    s.cases.push_back(vp::history_case("one thread", [=] { histories(thorough ? 8 : 6); }, 36));
    s.cases.push_back(vp::history_case("two threads", [=] { two_threads(thorough ? 5 : 4); }, 8));
    s.cases.push_back(vp::data_case("teams", region));
    return s;
  });
}
