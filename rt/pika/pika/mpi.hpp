#pragma once
#include <mpi.h>
#include <stdexcept>
#include <string>
#include <pika/runtime.hpp>
#include <pika/vp_core.hpp>
#include <vp/mpi_rt.hpp>
namespace pika::mpi::experimental {
enum class exception_mode { no_handler, install_handler };
inline void start_polling(exception_mode = exception_mode::no_handler) {
  ++vp_detail::life().polling;
}
inline void stop_polling() {
  if (--vp_detail::life().polling < 0)
    vp::violation("pika::mpi::stop_polling without start_polling");
}
inline std::string get_pool_name() {
  return "default";
}

namespace detail {
namespace ex = pika::execution::experimental;
using ex::vt;
using ex::detail::arg_t;

template <class F, class... Ts>
using mpi_result_t = std::decay_t<decltype(std::declval<F&>()(std::declval<Ts&>()..., std::declval<MPI_Request*>()))>;

template <class F, class V>
struct mpi_values;
template <class F, class... In>
struct mpi_values<F, vt<In...>> {
  using r = mpi_result_t<F, std::decay_t<In>...>;
  // an int is the error code of MPI, which is not passed on
  using type = std::conditional_t<std::is_void_v<r> || std::is_same_v<r, int>, vt<>, vt<r>>;
};

// Posts the operation from a task of its own; the arguments live in the operation state until the request
// has completed; the continuation runs in a task of its own.
template <class S, class F, class V>
struct mpi_op;
template <class S, class F, class... In>
struct mpi_op<S, F, vt<In...>> final : ex::detail::op_base, ex::detail::recv<vt<In...>> {
  using out = typename mpi_values<F, vt<In...>>::type;
  using R = typename mpi_values<F, vt<In...>>::r;
  struct post_task final : vp::TaskBase {
    mpi_op* op;
    void run() override {
      op->post();
    }
  } pt;
  struct done_task final : vp::TaskBase {
    mpi_op* op;
    void run() override {
      vp::hb_acquire(op);
      op->finish();
    }
  } dt;
  ex::detail::recv<out>* r;
  F f;
  std::optional<std::tuple<std::decay_t<In>...>> args;
  std::optional<std::conditional_t<std::is_void_v<R>, char, R>> result;
  MPI_Request req{};
  ex::detail::op_of<S> child;
  template <class S_>
  mpi_op(S_&& s, F f_, ex::detail::recv<out>* r_)
      : r(r_), f(std::move(f_)), child(std::forward<S_>(s), static_cast<ex::detail::recv<vt<In...>>*>(this)) {}
  void start() noexcept override {
    child.start();
  }
  void set_value(arg_t<In>... ts) noexcept override {
    args.emplace(static_cast<arg_t<In>>(ts)...);
    pt.op = this;
    pt.mpi_pool = true;
    vp::spawn(&pt);
  }
  void set_error(std::exception_ptr e) noexcept override {
    r->set_error(std::move(e));
  }
  void post() {
    req = MPI_REQUEST_NULL;
    try {
      std::apply(
          [&](auto&... as) {
            if constexpr (std::is_void_v<R>)
              f(as..., &req);
            else
              result.emplace(f(as..., &req));
          },
          *args);
    }
    catch (...) {
      r->set_error(std::current_exception());
      return;
    }
    if constexpr (std::is_same_v<R, int>)
      if (*result != MPI_SUCCESS) {
        r->set_error(std::make_exception_ptr(std::runtime_error("MPI failed")));
        return;
      }
    if (req == MPI_REQUEST_NULL) {
      finish();
      return;
    }
    vp::HbIgnore ig;
    dt.op = this;
    dt.mpi_pool = true;
    int rank = vp::current_rank();
    vp::work_begin(rank);
    // pika's polling takes the request over from the posting task: everything before here happens before the completion
    vp::hb_release(this);
    vp::mpi_on_complete(req, rank, &dt);
  }
  void finish() {
    if constexpr (std::is_void_v<R> || std::is_same_v<R, int>)
      r->set_value();
    else
      r->set_value(std::move(*result));
  }
};

template <class S, class F>
struct mpi_sender {
  using pika_sender = void;
  using values = typename mpi_values<F, ex::values_of<S>>::type;
  S s;
  F f;
  struct op final : ex::detail::op_base {
    mpi_op<S, F, ex::values_of<S>> o;
    op(mpi_sender&& x, ex::detail::recv<values>* r) : o(std::move(x.s), std::move(x.f), r) {}
    op(const mpi_sender& x, ex::detail::recv<values>* r) : o(x.s, x.f, r) {}
    op(mpi_sender& x, ex::detail::recv<values>* r) : o(x.s, x.f, r) {}
    void start() noexcept override {
      o.start();
    }
  };
};
}
template <class S, class F, class = std::enable_if_t<pika::execution::experimental::is_sender_v<S>>>
auto transform_mpi(S&& s, F&& f) {
  return detail::mpi_sender<std::decay_t<S>, std::decay_t<F>>{std::forward<S>(s), std::forward<F>(f)};
}
template <class F, class = std::enable_if_t<!pika::execution::experimental::is_sender_v<F>>>
auto transform_mpi(F&& f) {
  return pika::execution::experimental::detail::closure{
      [f = std::decay_t<F>(std::forward<F>(f))](auto&& s) mutable {
        return transform_mpi(std::forward<decltype(s)>(s), std::move(f));
      }};
}
}
