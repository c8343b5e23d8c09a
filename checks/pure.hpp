// Helpers for checks that enumerate inputs of code that runs on one thread.
#pragma once
#include <csetjmp>
#include <exception>
#include <functional>
#include <iostream>
#include <sstream>
#include <string>
#include <vector>

#include <vp/explorer.hpp>

namespace vp {
inline Case data_case(std::string name, std::function<void()> f) {
  Case c;
  c.name = std::move(name);
  c.run = std::move(f);
  return c;
}

// Explores all sequences of decisions taken with vp::choose(n, ChoiceKind::Data, 0)
inline Case history_case(std::string name, std::function<void()> f, int split = 1) {
  Case c;
  c.name = std::move(name);
  c.run = std::move(f);
  c.split = split;
  return c;
}
inline int pick(int n) {
  return choose(n, ChoiceKind::Data, 0);
}

namespace detail {
inline jmp_buf death_jmp;
struct null_buf : std::streambuf {
  int overflow(int c) override {
    return c;
  }
};
}

// True if f() refuses by terminating the program (failed assertion). f must be called from a thread without
// destructors that matter between here and the assertion.
template <class F>
bool dies(F&& f) {
  static detail::null_buf nb;
  auto* old = std::cerr.rdbuf(&nb);
  auto old_t = std::set_terminate([] { longjmp(detail::death_jmp, 1); });
  bool died = false;
  if (setjmp(detail::death_jmp) == 0)
    f();
  else
    died = true;
  std::set_terminate(old_t);
  std::cerr.rdbuf(old);
  return died;
}
}
