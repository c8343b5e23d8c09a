// minipika: the subset of the pika API that DLA-Future uses, on top of the controlled vp scheduler.
// Semantics follow P2300/pika: lazily started senders, values kept in nested operation states until these
// are destroyed, split/ensure_started reset the predecessor's operation state when it has completed, ...
#pragma once
#include <atomic>
#include <chrono>
#include <cstddef>
#include <exception>
#include <functional>
#include <memory>
#include <optional>
#include <tuple>
#include <type_traits>
#include <utility>
#include <variant>
#include <vector>

#include <vp/runtime.hpp>

#define PIKA_HAVE_STDEXEC
#define PIKA_VERSION_FULL 0x001F00
#define PIKA_VERSION_MAJOR 0
#define PIKA_VERSION_MINOR 31

namespace pika::execution {
enum class thread_priority { default_, low, normal, high, high_recursive, boost, bound };
enum class thread_stacksize { default_, small_, medium, large, huge, nostack, current };
}

namespace pika::execution::experimental {
template <class... Ts>
struct vt {};

struct sender_tag {};

template <class S, class = void>
struct is_sender : std::false_type {};
template <class S>
struct is_sender<S, std::void_t<typename std::remove_cv_t<std::remove_reference_t<S>>::pika_sender>>
    : std::true_type {};
template <class S>
inline constexpr bool is_sender_v = is_sender<S>::value;

template <class S>
using values_of = typename std::decay_t<S>::values;

namespace detail {
template <class T>
using arg_t = std::conditional_t<std::is_reference_v<T>, T, T&&>;

struct op_base {
  op_base() = default;
  op_base(const op_base&) = delete;
  op_base& operator=(const op_base&) = delete;
  virtual ~op_base() = default;
  virtual void start() noexcept = 0;
};

template <class V>
struct recv;
template <class... Ts>
struct recv<vt<Ts...>> {
  virtual void set_value(arg_t<Ts>... ts) noexcept = 0;
  virtual void set_error(std::exception_ptr e) noexcept = 0;

protected:
  ~recv() = default;
};

template <class S>
using recv_of = recv<values_of<S>>;
template <class S>
using op_of = typename std::decay_t<S>::op;

template <class V>
struct decay_vt;
template <class... Ts>
struct decay_vt<vt<Ts...>> {
  using type = vt<std::decay_t<Ts>...>;
  using tuple = std::tuple<std::decay_t<Ts>...>;
};
template <class V>
using decay_vt_t = typename decay_vt<V>::type;
template <class V>
using vt_tuple = typename decay_vt<V>::tuple;

template <class... Vs>
struct concat;
template <>
struct concat<> {
  using type = vt<>;
};
template <class... As>
struct concat<vt<As...>> {
  using type = vt<As...>;
};
template <class... As, class... Bs, class... Rest>
struct concat<vt<As...>, vt<Bs...>, Rest...> : concat<vt<As..., Bs...>, Rest...> {};

// Storage for an operation state constructed and destroyed by hand
template <class Op>
struct manual {
  alignas(Op) unsigned char buf[sizeof(Op)];
  bool has = false;
  template <class... Args>
  Op& emplace(Args&&... args) {
    auto* p = ::new (static_cast<void*>(buf)) Op(std::forward<Args>(args)...);
    has = true;
    return *p;
  }
  Op& get() {
    return *reinterpret_cast<Op*>(buf);
  }
  void reset() {
    if (has) {
      has = false;
      get().~Op();
    }
  }
  ~manual() {
    reset();
  }
};

struct closure_tag {};
}

// sender | closure
template <class S, class C, class = std::enable_if_t<is_sender_v<S>>,
          class = typename std::decay_t<C>::vp_closure>
auto operator|(S&& s, C&& c) {
  return std::forward<C>(c)(std::forward<S>(s));
}

namespace detail {
using pika::execution::experimental::operator|;
template <class F>
struct closure {
  using vp_closure = void;
  F f;
  template <class S>
  auto operator()(S&& s) && {
    return std::move(f)(std::forward<S>(s));
  }
  template <class S>
  auto operator()(S&& s) & {
    return f(std::forward<S>(s));
  }
};
template <class F>
closure(F) -> closure<F>;
}

template <class S, class Env, template <class...> class Tuple, template <class...> class Variant>
struct value_types_helper;
namespace detail {
template <class V, template <class...> class Tuple, template <class...> class Variant>
struct vth;
template <class... Ts, template <class...> class Tuple, template <class...> class Variant>
struct vth<vt<Ts...>, Tuple, Variant> {
  using type = Variant<Tuple<Ts...>>;
};
}
template <class S, class Env, template <class...> class Tuple, template <class...> class Variant>
using value_types_of_t = typename detail::vth<values_of<S>, Tuple, Variant>::type;

template <class S>
struct sender_traits {
  template <template <class...> class Tuple, template <class...> class Variant>
  using value_types = typename detail::vth<values_of<S>, Tuple, Variant>::type;
};

// ---- just ----------------------------------------------------------------------------------------
namespace detail {
template <class... Ts>
struct just_sender {
  using pika_sender = void;
  using values = vt<Ts...>;
  std::tuple<Ts...> ts;
  struct op final : op_base {
    std::tuple<Ts...> ts;
    recv<values>* r;
    op(just_sender s, recv<values>* r) : ts(std::move(s.ts)), r(r) {}
    void start() noexcept override {
      std::apply([this](auto&... t) { r->set_value(std::move(t)...); }, ts);
    }
  };
};
}
template <class... Ts>
auto just(Ts&&... ts) {
  return detail::just_sender<std::decay_t<Ts>...>{std::tuple<std::decay_t<Ts>...>(std::forward<Ts>(ts)...)};
}

// ---- then ----------------------------------------------------------------------------------------
namespace detail {
template <class F, class V>
struct then_result;
template <class F, class... Ts>
struct then_result<F, vt<Ts...>> {
  using R = std::invoke_result_t<F, arg_t<Ts>...>;
  using type = std::conditional_t<std::is_void_v<R>, vt<>, vt<R>>;
};
template <>
struct then_result<void, vt<void>> {
  using type = vt<>;
};

template <class S, class F, class VIn>
struct then_op;
template <class S, class F, class... In>
struct then_op<S, F, vt<In...>> final : op_base, recv<vt<In...>> {
  using values = typename then_result<F, vt<In...>>::type;
  F f;
  recv<values>* r;
  op_of<S> child;
  template <class S_>
  then_op(S_&& s, recv<values>* r_)
      : f(std::forward<S_>(s).f), r(r_), child(std::forward<S_>(s).s, static_cast<recv<vt<In...>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    std::exception_ptr e;
    try {
      if constexpr (std::is_void_v<std::invoke_result_t<F, arg_t<In>...>>) {
        std::invoke(std::move(f), static_cast<arg_t<In>>(ts)...);
        r->set_value();
      }
      else
        r->set_value(std::invoke(std::move(f), static_cast<arg_t<In>>(ts)...));
      return;
    }
    catch (...) {
      e = std::current_exception();
    }
    r->set_error(std::move(e));
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
};

template <class S, class F>
struct then_sender {
  using pika_sender = void;
  using values = typename then_result<F, values_of<S>>::type;
  using op = then_op<S, F, values_of<S>>;
  S s;
  F f;
};
}
template <class F>
auto then(F&& f);
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto then(S&& s, F&& f) {
  return detail::then_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto then(F&& f) {
  return detail::closure{[f = std::forward<F>(f)](auto&& s) mutable {
    return then(std::forward<decltype(s)>(s), std::move(f));
  }};
}

// ---- drop_value ----------------------------------------------------------------------------------
namespace detail {
struct drop_f {
  template <class... Ts>
  void operator()(Ts&&...) const noexcept {}
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto drop_value(S&& s) {
  return then(std::forward<S>(s), detail::drop_f{});
}
inline auto drop_value() {
  return detail::closure{[](auto&& s) { return drop_value(std::forward<decltype(s)>(s)); }};
}

// ---- drop_operation_state ------------------------------------------------------------------------
namespace detail {
template <class S, class VIn>
struct dos_op;
template <class S, class... In>
struct dos_op<S, vt<In...>> final : op_base, recv<vt<In...>> {
  using values = vt<std::decay_t<In>...>;
  recv<values>* r;
  manual<op_of<S>> child;
  template <class S_>
  dos_op(S_&& s, recv<values>* r_) : r(r_) {
    child.emplace(std::forward<S_>(s).s, static_cast<recv<vt<In...>>*>(this));
  }
  void start() noexcept override {
    child.get().start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    std::tuple<std::decay_t<In>...> local(static_cast<arg_t<In>>(ts)...);
    child.reset();
    std::apply([this](auto&... t) { r->set_value(std::move(t)...); }, local);
  }
  void set_error(std::exception_ptr e) noexcept override {
    child.reset();
    r->set_error(std::move(e));
  }
};
template <class S>
struct dos_sender {
  using pika_sender = void;
  using values = decay_vt_t<values_of<S>>;
  using op = dos_op<S, values_of<S>>;
  S s;
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto drop_operation_state(S&& s) {
  return detail::dos_sender<std::decay_t<S>>{std::forward<S>(s)};
}
inline auto drop_operation_state() {
  return detail::closure{[](auto&& s) { return drop_operation_state(std::forward<decltype(s)>(s)); }};
}

// ---- schedulers ----------------------------------------------------------------------------------
struct thread_pool_scheduler {
  thread_priority prio = thread_priority::default_;
  thread_stacksize stack = thread_stacksize::default_;
  thread_pool_scheduler() = default;
  template <class Pool>
  explicit thread_pool_scheduler(Pool*) {}
};
inline thread_pool_scheduler with_priority(thread_pool_scheduler s, thread_priority p) {
  s.prio = p;
  return s;
}
inline thread_pool_scheduler with_stacksize(thread_pool_scheduler s, thread_stacksize p) {
  s.stack = p;
  return s;
}
namespace detail {
struct schedule_sender {
  using pika_sender = void;
  using values = vt<>;
  thread_pool_scheduler sched;
  struct op final : op_base, vp::TaskBase {
    recv<vt<>>* r;
    op(schedule_sender s, recv<vt<>>* r_) : r(r_) {
      nostack = s.sched.stack == thread_stacksize::nostack;
      prio = s.sched.prio == thread_priority::high ? 1 : 0;
    }
    void start() noexcept override {
      vp::spawn(this);
    }
    void run() override {
      r->set_value();
    }
  };
};

template <class S, class VIn>
struct cont_op;
template <class S, class... In>
struct cont_op<S, vt<In...>> final : op_base, recv<vt<In...>>, vp::TaskBase {
  using values = vt<std::decay_t<In>...>;
  recv<values>* r;
  std::optional<std::tuple<std::decay_t<In>...>> v;
  std::exception_ptr err;
  op_of<S> child;
  template <class S_>
  cont_op(S_&& s, recv<values>* r_)
      : r(r_), child(std::forward<S_>(s).s, static_cast<recv<vt<In...>>*>(this)) {
    nostack = s.sched.stack == thread_stacksize::nostack;
    prio = s.sched.prio == thread_priority::high ? 1 : 0;
  }
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    v.emplace(static_cast<arg_t<In>>(ts)...);
    vp::spawn(this);
  }
  void set_error(std::exception_ptr e) noexcept override {
    err = std::move(e);
    vp::spawn(this);
  }
  void run() override {
    if (err)
      r->set_error(std::move(err));
    else
      std::apply([this](auto&... t) { r->set_value(std::move(t)...); }, *v);
  }
};
template <class S>
struct cont_sender {
  using pika_sender = void;
  using values = decay_vt_t<values_of<S>>;
  using op = cont_op<S, values_of<S>>;
  S s;
  thread_pool_scheduler sched;
};
}
inline auto schedule(thread_pool_scheduler s) {
  return detail::schedule_sender{s};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto continues_on(S&& s, thread_pool_scheduler sched) {
  return detail::cont_sender<std::decay_t<S>>{std::forward<S>(s), sched};
}
inline auto continues_on(thread_pool_scheduler sched) {
  return detail::closure{[sched](auto&& s) { return continues_on(std::forward<decltype(s)>(s), sched); }};
}

// ---- let_value -----------------------------------------------------------------------------------
namespace detail {
template <class F, class V>
struct let_result;
template <class F, class... Ts>
struct let_result<F, vt<Ts...>> {
  using type = std::decay_t<std::invoke_result_t<F, std::decay_t<Ts>&...>>;
};
template <class S, class F, class VIn>
struct let_op;
template <class S, class F, class... In>
struct let_op<S, F, vt<In...>> final : op_base, recv<vt<In...>> {
  using S2 = typename let_result<F, vt<In...>>::type;
  using values = values_of<S2>;
  F f;
  recv<values>* r;
  std::optional<std::tuple<std::decay_t<In>...>> v;
  op_of<S> child;
  manual<op_of<S2>> child2;
  template <class S_>
  let_op(S_&& s, recv<values>* r_)
      : f(std::forward<S_>(s).f), r(r_), child(std::forward<S_>(s).s, static_cast<recv<vt<In...>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    std::exception_ptr e;
    try {
      v.emplace(static_cast<arg_t<In>>(ts)...);
      child2.emplace(std::apply([this](auto&... t) { return std::invoke(std::move(f), t...); }, *v), r);
    }
    catch (...) {
      e = std::current_exception();
    }
    if (e)
      r->set_error(std::move(e));
    else
      child2.get().start();
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
};
template <class S, class F>
struct let_sender {
  using pika_sender = void;
  using op = let_op<S, F, values_of<S>>;
  using values = values_of<typename let_result<F, values_of<S>>::type>;
  S s;
  F f;
};
}
template <class F>
auto let_value(F&& f);
template <class S, class F, class = std::enable_if_t<is_sender_v<S>>>
auto let_value(S&& s, F&& f) {
  return detail::let_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)};
}
template <class F>
auto let_value(F&& f) {
  return detail::closure{[f = std::forward<F>(f)](auto&& s) mutable {
    return let_value(std::forward<decltype(s)>(s), std::move(f));
  }};
}

// ---- bulk ----------------------------------------------------------------------------------------
namespace detail {
template <class S, class F, class VIn>
struct bulk_op;
template <class S, class F, class... In>
struct bulk_op<S, F, vt<In...>> final : op_base, recv<vt<In...>> {
  using values = vt<std::decay_t<In>...>;
  struct worker final : vp::TaskBase {
    bulk_op* p = nullptr;
    std::size_t b = 0, e = 0;
    void run() override {
      bulk_op* op = p;
      try {
        for (std::size_t i = b; i < e; ++i)
          std::apply([&](auto&... t) { op->f(i, t...); }, *op->v);
      }
      catch (...) {
        if (!op->has_err.exchange(true))
          op->err = std::current_exception();
      }
      op->done();
    }
  };
  F f;
  std::size_t n;
  recv<values>* r;
  std::optional<std::tuple<std::decay_t<In>...>> v;
  std::vector<worker> workers;
  std::atomic<std::size_t> left{0};
  std::atomic<bool> has_err{false};
  std::exception_ptr err;
  op_of<S> child;
  template <class S_>
  bulk_op(S_&& s, recv<values>* r_)
      : f(std::forward<S_>(s).f), n(s.n), r(r_),
        child(std::forward<S_>(s).s, static_cast<recv<vt<In...>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    v.emplace(static_cast<arg_t<In>>(ts)...);
    // One task per worker thread of the pool (at most), each executing a chunk of the iterations
    std::size_t w = std::min<std::size_t>(n, static_cast<std::size_t>(std::max(1, vp::num_threads())));
    left = w + 1;
    workers.resize(w);
    for (std::size_t i = 0; i < w; ++i) {
      workers[i].p = this;
      workers[i].b = n * i / w;
      workers[i].e = n * (i + 1) / w;
      vp::spawn(&workers[i]);
    }
    done();
  }
  void done() noexcept {
    if (left.fetch_sub(1) == 1) {
      if (has_err)
        r->set_error(std::move(err));
      else
        std::apply([this](auto&... t) { r->set_value(std::move(t)...); }, *v);
    }
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
};
template <class S, class F>
struct bulk_sender {
  using pika_sender = void;
  using values = decay_vt_t<values_of<S>>;
  using op = bulk_op<S, F, values_of<S>>;
  S s;
  std::size_t n;
  F f;
};
}
template <class S, class N, class F, class = std::enable_if_t<is_sender_v<S>>>
auto bulk(S&& s, N n, F&& f) {
  return detail::bulk_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s),
                                                              static_cast<std::size_t>(n),
                                                              std::forward<F>(f)};
}
template <class N, class F>
auto bulk(N n, F&& f) {
  return detail::closure{[n, f = std::forward<F>(f)](auto&& s) mutable {
    return bulk(std::forward<decltype(s)>(s), n, std::move(f));
  }};
}

// ---- unpack --------------------------------------------------------------------------------------
namespace detail {
template <class T>
struct unpack_vals;
template <class... Ts>
struct unpack_vals<std::tuple<Ts...>> {
  using type = vt<Ts...>;
};
template <class A, class B>
struct unpack_vals<std::pair<A, B>> {
  using type = vt<A, B>;
};
template <class S, class VIn>
struct unpack_op;
template <class S, class In>
struct unpack_op<S, vt<In>> final : op_base, recv<vt<In>> {
  using values = typename unpack_vals<std::decay_t<In>>::type;
  recv<values>* r;
  op_of<S> child;
  template <class S_>
  unpack_op(S_&& s, recv<values>* r_)
      : r(r_), child(std::forward<S_>(s).s, static_cast<recv<vt<In>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In> t) noexcept override {
    std::decay_t<In> local(static_cast<arg_t<In>>(t));
    std::apply([this](auto&... x) { r->set_value(std::move(x)...); }, local);
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
};
template <class V>
struct vt_first;
template <class T>
struct vt_first<vt<T>> {
  using type = T;
};
template <class S>
struct unpack_sender {
  using pika_sender = void;
  using values = typename unpack_vals<std::decay_t<typename vt_first<values_of<S>>::type>>::type;
  using op = unpack_op<S, values_of<S>>;
  S s;
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto unpack(S&& s) {
  return detail::unpack_sender<std::decay_t<S>>{std::forward<S>(s)};
}
inline auto unpack() {
  return detail::closure{[](auto&& s) { return unpack(std::forward<decltype(s)>(s)); }};
}

// ---- when_all ------------------------------------------------------------------------------------
namespace detail {
struct when_all_state {
  std::atomic<std::size_t> left{0};
  std::atomic<bool> failed{false};
  std::exception_ptr err;
  void fail(std::exception_ptr e) noexcept {
    if (!failed.exchange(true))
      err = std::move(e);
  }
};

template <class P, class V>
struct wa_slot;
template <class P, class... Ts>
struct wa_slot<P, vt<Ts...>> final : recv<vt<Ts...>> {
  P* p = nullptr;
  std::optional<std::tuple<std::decay_t<Ts>...>> v;
  void set_value(arg_t<Ts>... ts) noexcept override {
    v.emplace(static_cast<arg_t<Ts>>(ts)...);
    p->done();
  }
  void set_error(std::exception_ptr e) noexcept override {
    p->st.fail(std::move(e));
    p->done();
  }
};

template <class... Ss>
struct when_all_op final : op_base {
  using values = typename concat<decay_vt_t<values_of<Ss>>...>::type;
  struct all {
    std::tuple<wa_slot<when_all_op, values_of<Ss>>...> slots;
  };
  recv<values>* r;
  when_all_state st;
  std::tuple<wa_slot<when_all_op, values_of<Ss>>...> slots;
  std::tuple<manual<op_of<Ss>>...> ops;

  template <class T>
  when_all_op(T&& s, recv<values>* r_) : r(r_) {
    init(std::forward<T>(s).ss, std::index_sequence_for<Ss...>{});
  }
  template <class T, std::size_t... I>
  void init(T&& ss, std::index_sequence<I...>) {
    ((std::get<I>(slots).p = this,
      std::get<I>(ops).emplace(std::get<I>(std::forward<T>(ss)),
                               static_cast<recv_of<Ss>*>(&std::get<I>(slots)))),
     ...);
  }
  void start() noexcept override {
    st.left = sizeof...(Ss) + 1;
    std::apply([](auto&... o) { (o.get().start(), ...); }, ops);
    done();
  }
  void done() noexcept {
    if (st.left.fetch_sub(1) != 1)
      return;
    if (st.failed) {
      r->set_error(std::move(st.err));
      return;
    }
    auto refs = std::apply(
        [](auto&... s) {
          return std::tuple_cat(std::apply([](auto&... x) { return std::tuple<decltype(x)...>(x...); },
                                           *s.v)...);
        },
        slots);
    std::apply([this](auto&... x) { r->set_value(std::move(x)...); }, refs);
  }
};
template <class... Ss>
struct when_all_sender {
  using pika_sender = void;
  using values = typename concat<decay_vt_t<values_of<Ss>>...>::type;
  using op = when_all_op<Ss...>;
  std::tuple<Ss...> ss;
};
}
template <class... Ss>
auto when_all(Ss&&... ss) {
  static_assert((is_sender_v<Ss> && ...), "when_all needs senders");
  return detail::when_all_sender<std::decay_t<Ss>...>{std::tuple<std::decay_t<Ss>...>(std::forward<Ss>(ss)...)};
}

// ---- when_all_vector -----------------------------------------------------------------------------
namespace detail {
template <class V>
struct wav_value;
template <>
struct wav_value<vt<>> {
  using values = vt<>;
  using elem = void;
};
template <class T>
struct wav_value<vt<T>> {
  using values = vt<std::vector<std::decay_t<T>>>;
  using elem = std::decay_t<T>;
};
template <class S>
struct when_all_vector_op final : op_base {
  using values = typename wav_value<values_of<S>>::values;
  recv<values>* r;
  when_all_state st;
  std::size_t n;
  std::unique_ptr<wa_slot<when_all_vector_op, values_of<S>>[]> slots;
  std::unique_ptr<manual<op_of<S>>[]> ops;
  template <class T>
  when_all_vector_op(T&& s, recv<values>* r_)
      : r(r_), n(s.ss.size()), slots(new wa_slot<when_all_vector_op, values_of<S>>[n]),
        ops(new manual<op_of<S>>[n]) {
    for (std::size_t i = 0; i < n; ++i) {
      slots[i].p = this;
      if constexpr (std::is_lvalue_reference_v<T>)
        ops[i].emplace(s.ss[i], static_cast<recv_of<S>*>(&slots[i]));
      else
        ops[i].emplace(std::move(s.ss[i]), static_cast<recv_of<S>*>(&slots[i]));
    }
  }
  void start() noexcept override {
    st.left = n + 1;
    for (std::size_t i = 0; i < n; ++i)
      ops[i].get().start();
    done();
  }
  void done() noexcept {
    if (st.left.fetch_sub(1) != 1)
      return;
    if (st.failed) {
      r->set_error(std::move(st.err));
      return;
    }
    if constexpr (std::is_void_v<typename wav_value<values_of<S>>::elem>)
      r->set_value();
    else {
      std::vector<typename wav_value<values_of<S>>::elem> v;
      v.reserve(n);
      for (std::size_t i = 0; i < n; ++i)
        v.push_back(std::move(std::get<0>(*slots[i].v)));
      r->set_value(std::move(v));
    }
  }
};
template <class S>
struct when_all_vector_sender {
  using pika_sender = void;
  using values = typename wav_value<values_of<S>>::values;
  using op = when_all_vector_op<S>;
  std::vector<S> ss;
};
}
template <class S>
auto when_all_vector(std::vector<S> ss) {
  return detail::when_all_vector_sender<S>{std::move(ss)};
}

// ---- split / split_tuple / ensure_started --------------------------------------------------------
namespace detail {
// Shared state: runs the predecessor once, stores its values, notifies the consumers.
template <class S, class V>
struct shared_state;
template <class S, class... In>
struct shared_state<S, vt<In...>> final : recv<vt<In...>>,
                                          std::enable_shared_from_this<shared_state<S, vt<In...>>> {
  manual<op_of<S>> child;
  std::optional<std::tuple<std::decay_t<In>...>> v;
  std::exception_ptr err;
  std::atomic<bool> started{false};
  std::atomic<bool> finished{false};
  std::vector<std::function<void()>> waiters;
  std::shared_ptr<shared_state> self;  // keeps the state alive while the predecessor runs

  template <class S_>
  explicit shared_state(S_&& s) {
    child.emplace(std::forward<S_>(s), static_cast<recv<vt<In...>>*>(this));
  }
  void start() {
    if (!started.exchange(true)) {
      self = this->shared_from_this();
      child.get().start();
    }
  }
  void set_value(arg_t<In>... ts) noexcept override {
    v.emplace(static_cast<arg_t<In>>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr e) noexcept override {
    err = std::move(e);
    finish();
  }
  void finish() {
    // The values are stored, release everything that the predecessor holds
    child.reset();
    vp::hb_release(this);
    vp::hb_acquire(this);
    finished = true;
    std::vector<std::function<void()>> w;
    {
      vp::HbIgnore ig;
      w.swap(waiters);
    }
    auto keep = std::move(self);
    for (auto& f : w)
      f();
    vp::HbIgnore ig;
    w = {};
  }
  void add(std::function<void()> f) {
    if (finished) {
      vp::hb_acquire(this);
      f();
    }
    else {
      {
        vp::HbIgnore ig;
        waiters.push_back(std::move(f));
      }
      vp::hb_release(this);
    }
  }
};

template <class S, class V>
struct split_op;
template <class S, class... In>
struct split_op<S, vt<In...>> final : op_base {
  using values = vt<const std::decay_t<In>&...>;
  std::shared_ptr<shared_state<S, vt<In...>>> st;
  recv<values>* r;
  template <class T>
  split_op(T&& s, recv<values>* r_) : st(std::forward<T>(s).st), r(r_) {}
  void start() noexcept override {
    auto keep = st;
    keep->start();
    keep->add([this]() {
      if (st->err)
        r->set_error(st->err);
      else
        std::apply([this](const auto&... t) { r->set_value(t...); }, *st->v);
    });
  }
};
template <class S>
struct split_sender {
  using pika_sender = void;
  using V = values_of<S>;
  using op = split_op<S, V>;
  using values = typename op::values;
  std::shared_ptr<shared_state<S, V>> st;
};

template <class S, class V>
struct ens_op;
template <class S, class... In>
struct ens_op<S, vt<In...>> final : op_base {
  using values = vt<std::decay_t<In>...>;
  std::shared_ptr<shared_state<S, vt<In...>>> st;
  recv<values>* r;
  template <class T>
  ens_op(T&& s, recv<values>* r_) : st(std::forward<T>(s).st), r(r_) {}
  void start() noexcept override {
    auto keep = st;
    keep->add([this]() {
      if (st->err)
        r->set_error(st->err);
      else
        std::apply([this](auto&... t) { r->set_value(std::move(t)...); }, *st->v);
    });
  }
};
template <class S>
struct ens_sender {
  using pika_sender = void;
  using V = values_of<S>;
  using op = ens_op<S, V>;
  using values = typename op::values;
  std::shared_ptr<shared_state<S, V>> st;
  explicit ens_sender(std::shared_ptr<shared_state<S, V>> st) : st(std::move(st)) {}
  ens_sender(ens_sender&&) = default;
  ens_sender& operator=(ens_sender&&) = default;
  ens_sender(const ens_sender&) = delete;
};
template <class T>
struct is_ens : std::false_type {};
template <class S>
struct is_ens<ens_sender<S>> : std::true_type {};

template <class S, std::size_t I>
struct stup_sender {
  using pika_sender = void;
  using tuple = std::decay_t<typename vt_first<values_of<S>>::type>;
  using elem = std::tuple_element_t<I, tuple>;
  using values = vt<elem>;
  std::shared_ptr<shared_state<S, values_of<S>>> st;
  struct op final : op_base {
    std::shared_ptr<shared_state<S, values_of<S>>> st;
    recv<values>* r;
    op(stup_sender s, recv<values>* r_) : st(std::move(s.st)), r(r_) {}
    void start() noexcept override {
      auto keep = st;
      keep->start();
      keep->add([this]() {
        if (st->err)
          r->set_error(st->err);
        else
          r->set_value(std::move(std::get<I>(std::get<0>(*st->v))));
      });
    }
  };
};
template <class S, class St, std::size_t... I>
auto make_split_tuple(St st, std::index_sequence<I...>) {
  return std::tuple<stup_sender<S, I>...>{stup_sender<S, I>{st}...};
}
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split(S&& s) {
  using D = std::decay_t<S>;
  return detail::split_sender<D>{
      std::make_shared<detail::shared_state<D, values_of<D>>>(std::forward<S>(s))};
}
inline auto split() {
  return detail::closure{[](auto&& s) { return split(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto split_tuple(S&& s) {
  using D = std::decay_t<S>;
  using tuple = std::decay_t<typename detail::vt_first<values_of<D>>::type>;
  auto st = std::make_shared<detail::shared_state<D, values_of<D>>>(std::forward<S>(s));
  return detail::make_split_tuple<D>(st, std::make_index_sequence<std::tuple_size_v<tuple>>{});
}
inline auto split_tuple() {
  return detail::closure{[](auto&& s) { return split_tuple(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto ensure_started(S&& s) {
  using D = std::decay_t<S>;
  if constexpr (detail::is_ens<D>::value)
    return D(std::forward<S>(s));
  else {
    auto st = std::make_shared<detail::shared_state<D, values_of<D>>>(std::forward<S>(s));
    st->start();
    return detail::ens_sender<D>{std::move(st)};
  }
}
inline auto ensure_started() {
  return detail::closure{[](auto&& s) { return ensure_started(std::forward<decltype(s)>(s)); }};
}

// ---- start_detached ------------------------------------------------------------------------------
namespace detail {
template <class S, class V>
struct detached;
template <class S, class... In>
struct detached<S, vt<In...>> final : recv<vt<In...>> {
  op_of<S> child;
  template <class S_>
  explicit detached(S_&& s) : child(std::forward<S_>(s), static_cast<recv<vt<In...>>*>(this)) {
    vp::opstates_add(1);
  }
  ~detached() {
    vp::opstates_add(-1);
  }
  void set_value(arg_t<In>...) noexcept override {
    delete this;
  }
  void set_error(std::exception_ptr e) noexcept override {
    try {
      std::rethrow_exception(e);
    }
    catch (const std::exception& ex) {
      vp::violation(std::string("start_detached: error in detached work: ") + ex.what());
    }
    catch (...) {
      vp::violation("start_detached: unknown error in detached work");
    }
  }
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
void start_detached(S&& s) {
  using D = std::decay_t<S>;
  auto* p = new detail::detached<D, values_of<D>>(std::forward<S>(s));
  p->child.start();
}
inline auto start_detached() {
  return detail::closure{[](auto&& s) { return start_detached(std::forward<decltype(s)>(s)); }};
}

// ---- any senders ---------------------------------------------------------------------------------
namespace detail {
template <class From, class To>
struct any_op;
template <class S, class Out, class V>
struct any_op_impl;
template <class S, class... Out, class... In>
struct any_op_impl<S, vt<Out...>, vt<In...>> final : op_base, recv<vt<In...>> {
  recv<vt<Out...>>* r;
  op_of<S> child;
  template <class S_>
  any_op_impl(S_&& s, recv<vt<Out...>>* r_)
      : r(r_), child(std::forward<S_>(s), static_cast<recv<vt<In...>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    fwd(Out(static_cast<arg_t<In>>(ts))...);
  }
  void fwd(Out... out) {
    r->set_value(static_cast<arg_t<Out>>(out)...);
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
};
template <class S, class Out>
struct any_op_same final : op_base {
  op_of<S> child;
  template <class S_>
  any_op_same(S_&& s, recv<Out>* r_) : child(std::forward<S_>(s), r_) {}
  void start() noexcept override {
    child.start();
  }
};
template <class S, class Out>
using any_op_t = std::conditional_t<std::is_same_v<values_of<S>, Out>, any_op_same<S, Out>,
                                    any_op_impl<S, Out, values_of<S>>>;

template <class Out>
struct any_base {
  virtual ~any_base() = default;
  virtual std::unique_ptr<op_base> connect(recv<Out>*) && = 0;
  virtual std::unique_ptr<op_base> connect(recv<Out>*) const& = 0;
  virtual std::unique_ptr<any_base> clone() const = 0;
};
template <class S, class Out, bool Copy>
struct any_impl final : any_base<Out> {
  S s;
  template <class S_>
  explicit any_impl(S_&& s_) : s(std::forward<S_>(s_)) {}
  std::unique_ptr<op_base> connect(recv<Out>* r) && override {
    return std::make_unique<any_op_t<S, Out>>(std::move(s), r);
  }
  std::unique_ptr<op_base> connect(recv<Out>* r) const& override {
    if constexpr (Copy)
      return std::make_unique<any_op_t<S, Out>>(s, r);
    else
      return nullptr;
  }
  std::unique_ptr<any_base<Out>> clone() const override {
    if constexpr (Copy)
      return std::make_unique<any_impl>(s);
    else
      return nullptr;
  }
};
}

template <class... Ts>
class unique_any_sender {
public:
  using pika_sender = void;
  using values = vt<Ts...>;
  using is_unique_any = void;
  struct op final : detail::op_base {
    std::unique_ptr<detail::op_base> child;
    op(unique_any_sender s, detail::recv<values>* r) : child(std::move(*s.p).connect(r)) {}
    void start() noexcept override {
      child->start();
    }
  };
  unique_any_sender() = default;
  unique_any_sender(unique_any_sender&&) = default;
  unique_any_sender& operator=(unique_any_sender&&) = default;
  unique_any_sender(const unique_any_sender&) = delete;
  unique_any_sender& operator=(const unique_any_sender&) = delete;
  template <class S, class = std::enable_if_t<is_sender_v<S> &&
                                              !std::is_same_v<std::decay_t<S>, unique_any_sender>>>
  unique_any_sender(S&& s)
      : p(std::make_unique<detail::any_impl<std::decay_t<S>, values, false>>(std::forward<S>(s))) {}
  bool empty() const noexcept {
    return !p;
  }
  explicit operator bool() const noexcept {
    return bool(p);
  }
  void reset() {
    p.reset();
  }

private:
  std::unique_ptr<detail::any_base<values>> p;
};

template <class... Ts>
class any_sender {
public:
  using pika_sender = void;
  using values = vt<Ts...>;
  struct op final : detail::op_base {
    std::unique_ptr<detail::op_base> child;
    op(any_sender&& s, detail::recv<values>* r) : child(std::move(*s.p).connect(r)) {
      s.p.reset();
    }
    op(const any_sender& s, detail::recv<values>* r) : child(std::as_const(*s.p).connect(r)) {}
    op(any_sender& s, detail::recv<values>* r) : child(std::as_const(*s.p).connect(r)) {}
    void start() noexcept override {
      child->start();
    }
  };
  any_sender() = default;
  any_sender(any_sender&&) = default;
  any_sender& operator=(any_sender&&) = default;
  any_sender(const any_sender& o) : p(o.p ? o.p->clone() : nullptr) {}
  any_sender& operator=(const any_sender& o) {
    if (this != &o)
      p = o.p ? o.p->clone() : nullptr;
    return *this;
  }
  template <class S, class = std::enable_if_t<is_sender_v<S> &&
                                              !std::is_same_v<std::decay_t<S>, any_sender>>>
  any_sender(S&& s)
      : p(std::make_unique<detail::any_impl<std::decay_t<S>, values, true>>(std::forward<S>(s))) {}
  bool empty() const noexcept {
    return !p;
  }
  explicit operator bool() const noexcept {
    return bool(p);
  }
  void reset() {
    p.reset();
  }

private:
  std::unique_ptr<detail::any_base<values>> p;
};

namespace detail {
template <class V>
struct any_of;
template <class... Ts>
struct any_of<vt<Ts...>> {
  using unique = unique_any_sender<std::decay_t<Ts>...>;
  using any = any_sender<std::decay_t<Ts>...>;
};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_unique_any_sender(S&& s) {
  return typename detail::any_of<values_of<S>>::unique(std::forward<S>(s));
}
inline auto make_unique_any_sender() {
  return detail::closure{[](auto&& s) { return make_unique_any_sender(std::forward<decltype(s)>(s)); }};
}
template <class S, class = std::enable_if_t<is_sender_v<S>>>
auto make_any_sender(S&& s) {
  return typename detail::any_of<values_of<S>>::any(std::forward<S>(s));
}
inline auto make_any_sender() {
  return detail::closure{[](auto&& s) { return make_any_sender(std::forward<decltype(s)>(s)); }};
}

// ---- async_rw_mutex ------------------------------------------------------------------------------
enum class async_rw_mutex_access_type { read, readwrite };

namespace detail {
template <class RW>
struct rw_state {
  using ptr = std::shared_ptr<rw_state>;
  std::shared_ptr<RW> value;
  ptr next;
  bool ready = false;
  std::vector<std::function<void(ptr)>> waiting;  // continuations of accesses to the *next* state
  ~rw_state() {
    if (!next)
      return;
    // all users of this state released it
    ptr n = std::move(next);
    n->value = std::move(value);
    n->ready = true;
    vp::hb_release(n.get());
    std::vector<std::function<void(ptr)>> w;
    {
      vp::HbIgnore ig;
      w.swap(waiting);
    }
    for (auto& f : w)
      f(n);
    vp::HbIgnore ig;
    w = {};
  }
};
}

template <class RW, class R, async_rw_mutex_access_type A>
class async_rw_mutex_access_wrapper;

template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read> {
  typename detail::rw_state<RW>::ptr st;

public:
  async_rw_mutex_access_wrapper() = delete;
  // (a template so that no conversion of RW or R, which may be incomplete, is considered for it)
  template <class P, class = std::enable_if_t<std::is_same_v<P, typename detail::rw_state<RW>::ptr>>>
  explicit async_rw_mutex_access_wrapper(P s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = default;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = default;
  const R& get() const {
    if (!st)
      vp::violation("access through a released (moved-from) read-only access wrapper");
    return *st->value;
  }
  operator const R&() const {
    return get();
  }
};
template <class RW, class R>
class async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite> {
  typename detail::rw_state<RW>::ptr st;

public:
  async_rw_mutex_access_wrapper() = delete;
  // (a template so that no conversion of RW or R, which may be incomplete, is considered for it)
  template <class P, class = std::enable_if_t<std::is_same_v<P, typename detail::rw_state<RW>::ptr>>>
  explicit async_rw_mutex_access_wrapper(P s) : st(std::move(s)) {}
  async_rw_mutex_access_wrapper(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper& operator=(async_rw_mutex_access_wrapper&&) = default;
  async_rw_mutex_access_wrapper(const async_rw_mutex_access_wrapper&) = delete;
  async_rw_mutex_access_wrapper& operator=(const async_rw_mutex_access_wrapper&) = delete;
  RW& get() const {
    if (!st)
      vp::violation("access through a released (moved-from) read-write access wrapper");
    return *st->value;
  }
  operator RW&() const {
    return get();
  }
};

namespace detail {
template <class RW, class R, async_rw_mutex_access_type A>
struct rw_sender {
  using pika_sender = void;
  using wrapper = async_rw_mutex_access_wrapper<RW, R, A>;
  using values = vt<wrapper>;
  using ptr = typename rw_state<RW>::ptr;
  std::weak_ptr<rw_state<RW>> prev;
  ptr state;
  rw_sender(std::weak_ptr<rw_state<RW>> prev, ptr state) : prev(std::move(prev)), state(std::move(state)) {}
  rw_sender(rw_sender&&) = default;
  rw_sender& operator=(rw_sender&&) = default;
  rw_sender(const rw_sender&) = default;
  rw_sender& operator=(const rw_sender&) = default;
  struct op final : op_base {
    std::weak_ptr<rw_state<RW>> prev;
    ptr state;
    recv<values>* r;
    op(rw_sender s, recv<values>* r_) : prev(std::move(s.prev)), state(std::move(s.state)), r(r_) {}
    void start() noexcept override {
      if (auto p = prev.lock()) {
        // the release of p by this thread orders this before the destructor of p
        vp::HbIgnore ig;
        p->waiting.push_back([this](ptr s) {
          state.reset();
          r->set_value(wrapper(std::move(s)));
        });
      }
      else {
        vp::hb_acquire(state.get());
        r->set_value(wrapper(std::move(state)));
      }
    }
  };
};
}

template <class RW, class R = RW>
class async_rw_mutex {
  using state_t = detail::rw_state<RW>;
  using ptr = typename state_t::ptr;

public:
  using read_type = std::decay_t<R> const;
  using readwrite_type = std::decay_t<RW>;
  using value_type = readwrite_type;
  using read_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::read>;
  using readwrite_access_type = async_rw_mutex_access_wrapper<RW, R, async_rw_mutex_access_type::readwrite>;

  async_rw_mutex() = delete;
  template <class U, class = std::enable_if_t<!std::is_same_v<std::decay_t<U>, async_rw_mutex>>>
  explicit async_rw_mutex(U&& u) : value(std::make_shared<RW>(std::forward<U>(u))) {}
  async_rw_mutex(async_rw_mutex&&) = default;
  async_rw_mutex& operator=(async_rw_mutex&&) = default;
  async_rw_mutex(const async_rw_mutex&) = delete;
  async_rw_mutex& operator=(const async_rw_mutex&) = delete;

  auto read() {
    if (!state || !last_read) {
      advance();
      last_read = true;
    }
    return detail::rw_sender<RW, R, async_rw_mutex_access_type::read>(prev, state);
  }
  auto readwrite() {
    advance();
    last_read = false;
    // a copy of this sender must not exist: readwrite access is exclusive
    return rw_unique(prev, state);
  }

private:
  struct rw_unique : detail::rw_sender<RW, R, async_rw_mutex_access_type::readwrite> {
    using base = detail::rw_sender<RW, R, async_rw_mutex_access_type::readwrite>;
    using base::base;
    rw_unique(rw_unique&&) = default;
    rw_unique& operator=(rw_unique&&) = default;
    rw_unique(const rw_unique&) = delete;
    rw_unique& operator=(const rw_unique&) = delete;
    struct op final : detail::op_base {
      typename base::op o;
      op(rw_unique s, detail::recv<typename base::values>* r) : o(static_cast<base&&>(s), r) {}
      void start() noexcept override {
        o.start();
      }
    };
  };
  void advance() {
    auto shared_prev = std::move(state);
    state = std::make_shared<state_t>();
    if (shared_prev) {
      shared_prev->next = state;
      prev = shared_prev;
    }
    else {
      state->value = std::move(value);
      state->ready = true;
      prev.reset();
    }
  }
  std::shared_ptr<RW> value;
  ptr state;
  std::weak_ptr<state_t> prev;
  bool last_read = false;
};
}

// ---- sync_wait -----------------------------------------------------------------------------------
namespace pika::this_thread::experimental {
namespace detail {
namespace ex = pika::execution::experimental;
template <class V>
struct sw_recv;
template <class... Ts>
struct sw_recv<ex::vt<Ts...>> final : ex::detail::recv<ex::vt<Ts...>> {
  std::optional<std::tuple<std::decay_t<Ts>...>> v;
  std::exception_ptr err;
  std::atomic<bool> done{false};
  vp::WaitList wl;
  void set_value(ex::detail::arg_t<Ts>... ts) noexcept override {
    v.emplace(static_cast<ex::detail::arg_t<Ts>>(ts)...);
    finish();
  }
  void set_error(std::exception_ptr e) noexcept override {
    err = std::move(e);
    finish();
  }
  void finish() {
    vp::hb_release(&wl);
    done = true;
    vp::wake_all(wl);
  }
};
}
template <class S>
auto sync_wait(S&& s) {
  using V = pika::execution::experimental::values_of<S>;
  detail::sw_recv<V> r;
  {
    pika::execution::experimental::detail::op_of<S> op(
        std::forward<S>(s), static_cast<pika::execution::experimental::detail::recv<V>*>(&r));
    op.start();
    while (!r.done)
      vp::park(r.wl, "sync_wait");
    vp::hb_acquire(&r.wl);
  }
  if (r.err)
    std::rethrow_exception(r.err);
  using tuple = pika::execution::experimental::detail::vt_tuple<V>;
  if constexpr (std::tuple_size_v<tuple> == 1)
    return std::tuple_element_t<0, tuple>(std::move(std::get<0>(*r.v)));
  else if constexpr (std::tuple_size_v<tuple> > 1)
    return tuple(std::move(*r.v));
}
inline auto sync_wait() {
  return pika::execution::experimental::detail::closure{
      [](auto&& s) { return sync_wait(std::forward<decltype(s)>(s)); }};
}
}

// ---- blocking synchronisation primitives ---------------------------------------------------------
namespace pika {
namespace detail {
struct empty_completion {
  void operator()() const noexcept {}
};
}
template <class F = detail::empty_completion>
class barrier {
  std::ptrdiff_t expected, left;
  std::uint64_t phase = 0;
  vp::WaitList wl;
  F f;

public:
  explicit barrier(std::ptrdiff_t n, F f = F()) : expected(n), left(n), f(std::move(f)) {}
  barrier(const barrier&) = delete;
  ~barrier() {
    if (!wl.waiters.empty())
      vp::violation("barrier destroyed while tasks wait in it");
  }
  void arrive_and_wait(std::chrono::duration<double> = std::chrono::duration<double>(0)) {
    vp::preempt_point();
    vp::hb_release(this);
    if (dec()) {
      vp::hb_acquire(this);
      f();
      vp::hb_release(this);
      next_phase();
      vp::wake_all(wl);
    }
    else {
      auto p = get_phase();
      while (p == get_phase())
        vp::park(wl, "barrier");
    }
    vp::hb_acquire(this);
  }
  void arrive_and_drop() {
    vp::hb_release(this);
    {
      vp::HbIgnore ig;
      --expected;
    }
    if (dec()) {
      vp::hb_acquire(this);
      f();
      vp::hb_release(this);
      next_phase();
      vp::wake_all(wl);
    }
  }

private:
  bool dec() {
    vp::HbIgnore ig;
    return --left == 0;
  }
  void next_phase() {
    vp::HbIgnore ig;
    left = expected;
    ++phase;
  }
  std::uint64_t get_phase() const {
    vp::HbIgnore ig;
    return phase;
  }
};

template <std::ptrdiff_t M = 1 << 30>
class counting_semaphore {
  std::ptrdiff_t c;
  vp::WaitList wl;

public:
  explicit counting_semaphore(std::ptrdiff_t v) : c(v) {}
  counting_semaphore(const counting_semaphore&) = delete;
  ~counting_semaphore() {
    if (!wl.waiters.empty())
      vp::violation("semaphore destroyed while tasks wait in it");
  }
  void release(std::ptrdiff_t n = 1) {
    vp::hb_release(this);
    add(n);
    for (std::ptrdiff_t i = 0; i < n; ++i)
      vp::wake_one(wl);
    vp::preempt_point();
  }
  void acquire() {
    vp::preempt_point();
    while (get() == 0)
      vp::park(wl, "semaphore");
    add(-1);
    vp::hb_acquire(this);
  }
  bool try_acquire() {
    if (get() == 0)
      return false;
    add(-1);
    vp::hb_acquire(this);
    return true;
  }

private:
  std::ptrdiff_t get() const {
    vp::HbIgnore ig;
    return c;
  }
  void add(std::ptrdiff_t n) {
    vp::HbIgnore ig;
    c += n;
  }
};

class mutex {
  bool locked = false;
  vp::WaitList wl;

public:
  explicit mutex(const char* = "") {}
  mutex(const mutex&) = delete;
  void lock() {
    vp::preempt_point();
    while (get())
      vp::park(wl, "mutex");
    set(true);
    vp::hb_acquire(this);
  }
  bool try_lock() {
    if (get())
      return false;
    set(true);
    vp::hb_acquire(this);
    return true;
  }
  void unlock() {
    vp::hb_release(this);
    set(false);
    vp::wake_one(wl);
  }

private:
  bool get() const {
    vp::HbIgnore ig;
    return locked;
  }
  void set(bool b) {
    vp::HbIgnore ig;
    locked = b;
  }
};

namespace this_thread {
inline void yield() {
  vp::preempt_point();
}
}
}
