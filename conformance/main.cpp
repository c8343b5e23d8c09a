// Runs a unit test of the repository on the stand-ins of pika, MPI and Umpire, under every base schedule and MPI behaviour.
#include <cstdlib>

#include "sched.hpp"

#define R(k) extern "C" int conformance_run__r##k(const char*);
R(0)
#if RANKS > 1
R(1)
#endif
#if RANKS > 2
R(2) R(3)
#endif
#if RANKS > 4
R(4) R(5)
#endif
static int (*const run[])(const char*) = {conformance_run__r0,
#if RANKS > 1
                                          conformance_run__r1,
#endif
#if RANKS > 2
                                          conformance_run__r2, conformance_run__r3,
#endif
#if RANKS > 4
                                          conformance_run__r4, conformance_run__r5
#endif
};

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool) {
    vp::Suite s;
    s.property = "conformance";
    s.rule = "unit tests";
    const char* f = getenv("CONF_FILTER");
    const std::string filter = f ? f : "*";
    s.cases.push_back(vp::sched_case("unit tests", [=] {
      vp::ranks(RANKS, 2, [&](int rank) {
        const int n = run[rank](filter.c_str());
        vp::n_nontrivial += rank == 0 ? std::uint64_t(n) : 0;
      });
    }, 0, getenv("CONF_POLICIES") ? unsigned(atoi(getenv("CONF_POLICIES"))) : vp::ALL_POLICIES, RANKS > 1, false));
    return s;
  });
}
