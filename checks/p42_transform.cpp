// P42: operations on senders run once, with the values sent, and release them when they have returned.
#include <memory>
#include <string>
#include <tuple>
#include <vector>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/common/callable_object.h>
#include <dlaf/common/pipeline.h>
#include <dlaf/sender/make_sender_algorithm_overloads.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/transform.h>
#include <dlaf/sender/when_all_lift.h>

#include "sched.hpp"

namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using namespace dlaf;
using dlaf::internal::TransformDispatchType;
using Policy = dlaf::internal::Policy<Backend::MC>;
using vp::pick;

static long live_tokens;  // tokens that hold a value

// A value that can only be moved and knows whether it has been moved away
struct Token {
  long v = -1;
  explicit Token(long x) : v(x) {
    vp::HbIgnore i;
    ++live_tokens;
  }
  Token(Token&& o) noexcept : v(std::exchange(o.v, -1)) {}
  Token& operator=(Token&&) = delete;
  Token(const Token&) = delete;
  ~Token() {
    vp::HbIgnore i;
    if (v >= 0)
      --live_tokens;
  }
};
struct Res {
  long v = -1;
  Res() = default;
  explicit Res(long x) : v(x) {}
  Res(Res&& o) noexcept : v(std::exchange(o.v, -2)) {}
  Res& operator=(Res&& o) noexcept {
    v = std::exchange(o.v, -2);
    return *this;
  }
};
using Pipe = common::Pipeline<Res>;

enum Kind { VALUE, REF, READ, WRITE, SHARED, PLAIN, PLAINREF, NKINDS };
static const char* kname[] = {"value", "reference", "read", "write", "shared-read", "plain value", "plain reference"};
constexpr bool is_plain(int k) {
  return k == PLAIN || k == PLAINREF;
}

// What belongs to one argument
struct Arg {
  int kind, pos;
  Pipe pipe;
  std::optional<Pipe::ReadOnlySender> other;  // second owner of a shared sender
  Res plain;
  long expected() const {
    return 100 + pos;
  }
  bool later = false;  // the access requested after the operation has been granted
};
struct State {
  std::vector<std::unique_ptr<Arg>> args;
  int calls = 0, continued = 0;
  bool inside = false, returned = false;
};

template <int K>
static decltype(auto) make(Arg& a) {
  if constexpr (K == VALUE)
    return ex::just(Token(a.expected()));
  else if constexpr (K == REF)
    return ex::just(std::ref(a.plain));
  else if constexpr (K == READ)
    return a.pipe.read();
  else if constexpr (K == WRITE)
    return a.pipe.readwrite();
  else if constexpr (K == SHARED) {
    Pipe::ReadOnlySender s = a.pipe.read();
    a.other.emplace(s);
    return s;
  }
  else if constexpr (K == PLAIN)
    return Token(a.expected());
  else
    return std::ref(a.plain);
}

template <int K, class X>
static void look(State& st, Arg& a, X&& x) {
  long v;
  if constexpr (K == VALUE || K == PLAIN) {
    static_assert(std::is_same_v<std::decay_t<X>, Token>);
    v = x.v;
  }
  else {
    static_assert(std::is_same_v<std::decay_t<X>, Res>, "arguments are unwrapped");
    static_assert(std::is_lvalue_reference_v<X>);
    static_assert(std::is_const_v<std::remove_reference_t<X>> == (K == READ || K == SHARED));
    v = x.v;
    if (K == REF || K == PLAINREF)
      VP_CHECK(&x == &a.plain, "a reference refers to another object");
    if constexpr (K == WRITE) {
      VP_CHECK(!a.later, "the next access has been granted while the operation uses the value");
      x.v += 1000;
    }
  }
  VP_CHECK(v == a.expected(), "argument %d (%s) is %ld instead of %ld", a.pos, kname[K], v, a.expected());
}

struct Failure {
  int code;
};

// (generic callable for the overloads made by the macro)
static State* current;
namespace alg {
template <class... Xs>
int run(Xs&&... xs);
DLAF_MAKE_CALLABLE_OBJECT(run);
DLAF_MAKE_SENDER_ALGORITHM_OVERLOADS(TransformDispatchType::Plain, operation, run_o)
}
static bool alg_throws, may_yield;
struct Look {
  template <std::size_t... I, class... Xs>
  static void all(std::index_sequence<I...>, State& st, Xs&&... xs) {
    (one(st, *st.args[I], std::forward<Xs>(xs)), ...);
  }
  template <class X>
  static void one(State& st, Arg& a, X&& x) {
    switch (a.kind) {
      case VALUE:
      case PLAIN:
        if constexpr (std::is_same_v<std::decay_t<X>, Token>)
          look<VALUE>(st, a, std::forward<X>(x));
        else
          VP_CHECK(false, "argument of another type");
        break;
      case REF:
      case PLAINREF:
        if constexpr (std::is_same_v<X, Res&>)
          look<REF>(st, a, x);
        else
          VP_CHECK(false, "argument of another type");
        break;
      case READ:
      case SHARED:
        if constexpr (std::is_same_v<X, const Res&>)
          look<READ>(st, a, x);
        else
          VP_CHECK(false, "argument of another type");
        break;
      case WRITE:
        if constexpr (std::is_same_v<X, Res&>)
          look<WRITE>(st, a, x);
        else
          VP_CHECK(false, "argument of another type");
        break;
    }
  }
};

template <class... Xs>
static int body(State& st, bool throws, Xs&&... xs) {
  VP_CHECK(sizeof...(Xs) == st.args.size(), "%zu arguments instead of %zu", sizeof...(Xs), st.args.size());
  {
    vp::HbIgnore i;
    ++st.calls;
    st.inside = true;
  }
  Look::all(std::index_sequence_for<Xs...>{}, st, std::forward<Xs>(xs)...);
  if (may_yield)
    pika::this_thread::yield();
  {
    vp::HbIgnore i;
    for (auto& a : st.args)
      if (a->kind == WRITE)
        VP_CHECK(!a->later, "the next access has been granted while the operation uses the value");
    st.inside = false;
    st.returned = true;
  }
  if (throws)
    throw Failure{17};
  return 42;
}
template <class... Xs>
int alg::run(Xs&&... xs) {
  return body(*current, alg_throws, std::forward<Xs>(xs)...);
}

// forms of applying an operation
enum Form { CALL, PIPE, LIFT, DETACH, PIPE_DETACH, LIFT_DETACH, ALG_CALL, ALG_PIPE, ALG_WAIT, NFORMS };
static const char* fname[] = {"transform(p, f, s)", "s | transform(p, f)", "transformLift", "transformDetach(p, f, s)", "s | transformDetach(p, f)", "transformLiftDetach", "algorithm(p, s)", "s | algorithm(p)", "algorithm(p, values...)"};
constexpr bool detached(int f) {
  return f == DETACH || f == PIPE_DETACH || f == LIFT_DETACH;
}

template <int... K>
static void operation() {
  constexpr int n = sizeof...(K);
  constexpr bool plain = (is_plain(K) || ...), all_plain = n > 0 && (is_plain(K) && ...);
  const int form = pick(NFORMS);
  const bool throws = !detached(form) && pick(2);
  const int policy = pick(3);
  // lvalue callables and senders are copied, not moved from
  const int lvalue = pick(2);
  if (plain && form != LIFT && form != LIFT_DETACH && !(form == ALG_WAIT && all_plain && n >= 2))
    return;
  if (form == ALG_WAIT && !(all_plain && n >= 2))
    return;
  std::string what = fname[form];
  ((what += vp::fmt(", %s", kname[K])), ...);
  what += throws ? ", throws" : "";
  vp::context(what);
  live_tokens = 0;
  vp::ranks(1, 2, [&](int) {
    State st;
    current = &st;
    alg_throws = throws;
    may_yield = policy != 2;  // tasks without a stack cannot
    int pos = 0;
    ((st.args.push_back(std::make_unique<Arg>(Arg{K, pos, Pipe(Res(100 + pos)), {}, Res(100 + pos)})), ++pos), ...);
    const Policy p = policy == 0 ? Policy() : policy == 1 ? Policy(pika::execution::thread_priority::high) : Policy(pika::execution::thread_priority::normal, pika::execution::thread_stacksize::nostack);
    auto f = [&st, throws](auto&&... xs) { return body(st, throws, std::forward<decltype(xs)>(xs)...); };
    // accesses that come after the operation; the continuation waits for them, so they must be granted when the operation has returned
    auto after = [&] {
      for (auto& a : st.args)
        if (a->kind == READ || a->kind == WRITE || a->kind == SHARED)
          ex::start_detached(a->pipe.readwrite() | ex::then([pa = a.get(), &st](auto w) {
                               const long want = pa->expected() + (pa->kind == WRITE ? 1000 : 0);
                               VP_CHECK(st.returned && w.get().v == want, "the access after the operation sees %ld instead of %ld", w.get().v, want);
                               vp::HbIgnore i;
                               pa->later = true;
                             }));
    };
    auto released = [&](const char* when) {
      vp::HbIgnore i;
      VP_CHECK(live_tokens == 0, "%ld values are still alive %s", live_tokens, when);
    };
    auto g = [&](int r) {
      VP_CHECK(r == 42 && st.returned, "result %d", r);
      released("when the continuation runs");
      {
        vp::HbIgnore i;
        ++st.continued;
        for (auto& a : st.args)
          a->other.reset();  // the second owner of shared senders
      }
      // whatever the operation had is free now
      if (!may_yield)
        return;
      for (auto& a : st.args)
        if (a->kind == READ || a->kind == WRITE)
          tt::sync_wait(a->pipe.readwrite());
    };
    auto wait = [&](auto s) {
      bool thrown = false;
      try {
        tt::sync_wait(std::move(s) | ex::then(g));
      }
      catch (const Failure& e) {
        thrown = true;
        VP_CHECK(e.code == 17, "another exception");
      }
      VP_CHECK(thrown == throws, throws ? "the exception got lost" : "exception");
      VP_CHECK(st.continued == !throws, "the continuation ran %d times", st.continued);
      released("after the wait");
    };
    auto with_indices = [&](auto&& fun) {
      return [&]<std::size_t... I>(std::index_sequence<I...>) -> decltype(auto) { return fun(make<K>(*st.args[I])...); }(std::make_index_sequence<std::size_t(n)>{});
    };
    auto all = [&] { return with_indices([](auto&&... xs) { return dlaf::internal::whenAllLift(std::forward<decltype(xs)>(xs)...); }); };
    using dlaf::internal::transform;
    using dlaf::internal::transformDetach;
    using dlaf::internal::transformLift;
    using dlaf::internal::transformLiftDetach;
    constexpr auto Plain = TransformDispatchType::Plain;
    auto go = [&](auto s) {
      VP_CHECK(st.calls == 0, "a lazy operation has been started");
      after();
      wait(std::move(s));
    };
    switch (form) {
      case CALL:
        if (lvalue)
          go(transform(p, f, all()));
        else
          go(transform(p, std::move(f), all()));
        break;
      case PIPE:
        if (lvalue) {
          auto partial = transform(p, f);
          go(all() | partial);
        }
        else
          go(all() | transform(p, std::move(f)));
        break;
      case LIFT:
        go(with_indices([&](auto&&... xs) { return transformLift<Plain>(p, f, std::forward<decltype(xs)>(xs)...); }));
        break;
      case DETACH:
        transformDetach(p, [f](auto&&... xs) { f(std::forward<decltype(xs)>(xs)...); }, all());
        after();
        break;
      case PIPE_DETACH:
        all() | transformDetach(p, [f](auto&&... xs) { f(std::forward<decltype(xs)>(xs)...); });
        after();
        break;
      case LIFT_DETACH:
        with_indices([&](auto&&... xs) { transformLiftDetach(p, [f](auto&&... ys) { f(std::forward<decltype(ys)>(ys)...); }, std::forward<decltype(xs)>(xs)...); return 0; });
        after();
        break;
      case ALG_CALL:
        go(alg::operation(p, all()));
        break;
      case ALG_PIPE:
        if (lvalue) {
          auto partial = alg::operation(p);
          go(all() | partial);
        }
        else
          go(all() | alg::operation(p));
        break;
      case ALG_WAIT:
        if constexpr (all_plain && n >= 2) {
          bool thrown = false;
          try {
            with_indices([&](auto&&... xs) {
              alg::operation(p, std::forward<decltype(xs)>(xs)...);
              return 0;
            });
          }
          catch (const Failure&) {
            thrown = true;
          }
          VP_CHECK(thrown == throws, "exception");
          VP_CHECK(st.returned, "the operation has not been completed");
          released("after the call");
        }
        break;
    }
    for (auto& a : st.args)
      a->other.reset();
    pika::wait();
    VP_CHECK(st.calls == 1, "the operation ran %d times", st.calls);
    for (auto& a : st.args) {
      if (a->kind == READ || a->kind == WRITE || a->kind == SHARED)
        VP_CHECK(a->later, "argument %d (%s) has not been released", a->pos, kname[a->kind]);
    }
    released("at the end");
  });
  ++vp::n_nontrivial;
}

template <int... K>
static void add(vp::Suite& s, bool thorough) {
  std::string name;
  ((name += vp::fmt("%s%s", name.empty() ? "" : ", ", kname[K])), ...);
  constexpr int n = sizeof...(K);
  auto c = vp::sched_case(name, [] { operation<K...>(); }, thorough ? -1 : (n == 1 ? 4 : 3), vp::ALL_POLICIES, false);
  s.cases.push_back(c);
}
template <int A>
static void pairs(vp::Suite& s, bool thorough) {
  add<A>(s, thorough);
  add<A, VALUE>(s, thorough);
  add<A, REF>(s, thorough);
  add<A, READ>(s, thorough);
  add<A, WRITE>(s, thorough);
  add<A, SHARED>(s, thorough);
  add<A, PLAIN>(s, thorough);
  add<A, PLAINREF>(s, thorough);
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P42";
    s.rule = "all argument lists up to two (some of three) of all kinds, all forms of applying an operation, with and without exception, callables and senders passed by reference or moved, three policies, "
             "under all schedules within the deviation bound; non-trivial: a complete operation";
    pairs<VALUE>(s, thorough);
    pairs<REF>(s, thorough);
    pairs<READ>(s, thorough);
    pairs<WRITE>(s, thorough);
    pairs<SHARED>(s, thorough);
    pairs<PLAIN>(s, thorough);
    pairs<PLAINREF>(s, thorough);
    add<VALUE, READ, WRITE>(s, thorough);
    add<WRITE, SHARED, PLAIN>(s, thorough);
    add<READ, READ, WRITE>(s, thorough);
    add<WRITE, WRITE, REF>(s, thorough);
    return s;
  });
}
