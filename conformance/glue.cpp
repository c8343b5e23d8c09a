// Linked into every copy of a unit test of the repository (one per rank).
#include <cstdio>
#include <memory>
#include <string>

#include <gtest/gtest.h>

#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include <vp/runtime.hpp>
#include <vp/explorer.hpp>

namespace {
struct Failures : testing::EmptyTestEventListener {
  int ntests = 0, nskipped = 0;
  void OnTestPartResult(const testing::TestPartResult& r) override {
    if (r.failed()) {
      auto* t = testing::UnitTest::GetInstance()->current_test_info();
      vp::violation(vp::fmt("unit test %s.%s fails on rank %d: %s:%d: %s", t ? t->test_suite_name() : "", t ? t->name() : "environment", vp::current_rank(), r.file_name() ? r.file_name() : "", r.line_number(), r.message()));
    }
  }
  void OnTestStart(const testing::TestInfo& i) override {
    vp::context(vp::fmt("unit test %s.%s", i.test_suite_name(), i.name()));
  }
  void OnTestEnd(const testing::TestInfo& i) override {
    pika::wait();
    ++(i.result()->Skipped() ? nskipped : ntests);
    vp::heartbeat();
  }
};
}

// Sleeping is waiting until nothing else can run (under the schedules that handle events last)
#include <time.h>
extern "C" int conformance_sleep() {
  auto wl = std::make_shared<vp::WaitList>();
  vp::post_event(vp::current_rank(), [wl] { vp::wake_all(*wl); }, "sleep");
  vp::park(*wl, "sleep");
  return 0;
}
extern "C" int nanosleep(const timespec*, timespec*) {
  return conformance_sleep();
}
extern "C" int clock_nanosleep(clockid_t, int, const timespec*, timespec*) {
  return conformance_sleep();
}

extern "C" int conformance_run(const char* filter) {
  int argc = 1;
  char name[] = "test";
  char* argv[] = {name, nullptr};
  testing::InitGoogleTest(&argc, argv);
  testing::GTEST_FLAG(filter) = filter;
  testing::GTEST_FLAG(catch_exceptions) = false;
  auto& l = testing::UnitTest::GetInstance()->listeners();
  delete l.Release(l.default_result_printer());
  auto* f = new Failures;
  l.Append(f);
  if (RUN_ALL_TESTS())
    vp::violation("the unit tests fail");
  const int n = f->ntests;
  delete l.Release(f);
  return n;
}
