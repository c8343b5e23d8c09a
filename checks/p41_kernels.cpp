// P41: the operations on tiles compute what they document, from the documented operands, in the documented place.
#include <cmath>
#include <complex>
#include <cstring>
#include <limits>
#include <tuple>
#include <vector>

#include <dlaf/blas/tile.h>
#include <dlaf/blas/tile_extensions.h>
#include <dlaf/lapack/tile.h>
#include <dlaf/lapack/tile_extensions.h>
#include <dlaf/memory/memory_view.h>
#include <dlaf/sender/policy.h>
#include <dlaf/sender/when_all_lift.h>

#include "algo.hpp"

using namespace algo;
using matrix::Tile;
constexpr auto D = Device::CPU;
using blas::Diag;
using blas::Op;
using blas::Side;
using blas::Uplo;

namespace {
// An operand: what has not been set is NaN, what is not said to be an output must not change
template <class T>
struct Arg {
  SizeType m, n, ld;
  std::vector<T> mem, before;
  static constexpr SizeType guard = 3;

  template <class F, class In>
  Arg(SizeType m, SizeType n, SizeType slack, F f, In referenced) : m(m), n(n), ld(std::max<SizeType>(1, m) + slack), mem(to_sizet(ld * n + 2 * guard)) {
    const auto nan = std::numeric_limits<BaseType<T>>::quiet_NaN();
    for (auto& x : mem)
      x = T(nan);
    if constexpr (isComplex_v<T>)
      for (auto& x : mem)
        x = T(nan, nan);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (referenced(i, j))
          mem[at(i, j)] = f(i, j);
    before = mem;
  }
  Arg(SizeType m, SizeType n, SizeType slack, const Dense<T>& a) : Arg(m, n, slack, a, [](SizeType, SizeType) { return true; }) {}
  Arg(SizeType slack, const Dense<T>& a) : Arg(a.m, a.n, slack, a) {}
  // undefined
  Arg(SizeType m, SizeType n, SizeType slack) : Arg(m, n, slack, [](SizeType, SizeType) { return T(); }, [](SizeType, SizeType) { return false; }) {}
  // the triangle
  Arg(SizeType slack, const Dense<T>& a, Uplo uplo, Diag diag = Diag::NonUnit) : Arg(a.m, a.n, slack, a, [=](SizeType i, SizeType j) { return in(uplo, i, j) && !(diag == Diag::Unit && i == j); }) {}

  std::size_t at(SizeType i, SizeType j) const {
    return to_sizet(guard + i + ld * j);
  }
  Tile<T, D> tile() {
    const SizeType need = m == 0 || n == 0 ? 0 : m + ld * (n - 1);
    return Tile<T, D>({m, n}, memory::MemoryView<T, D>(mem.data() + guard, need), ld);
  }
  template <class W, class Out>
  void check(const char* what, const W& want, Out out, double scale = 1) {
    std::vector<bool> is_out(mem.size(), false);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        if (out(i, j)) {
          is_out[at(i, j)] = true;
          const T x = mem[at(i, j)], w = want(i, j);
          const auto tol = 64 * std::numeric_limits<BaseType<T>>::epsilon() * BaseType<T>(scale);
          VP_CHECK(std::abs(x - w) <= tol * (1 + std::abs(w)), "%s: element (%ld,%ld) is %s instead of %s", what, long(i), long(j), str(x).c_str(), str(w).c_str());
        }
    for (std::size_t k = 0; k < mem.size(); ++k)
      VP_CHECK(is_out[k] || std::memcmp(&mem[k], &before[k], sizeof(T)) == 0, "%s: element (%ld,%ld) of the storage has changed", what, long((k - guard) % to_sizet(ld)), long((k - guard) / to_sizet(ld)));
  }
  template <class W>
  void check(const char* what, const W& want, double scale = 1) {
    check(what, want, [](SizeType, SizeType) { return true; }, scale);
  }
  void unchanged(const char* what) {
    check(what, [](SizeType, SizeType) { return T(); }, [](SizeType, SizeType) { return false; });
  }
  Dense<T> dense() const {
    return Dense<T>(m, n, [&](SizeType i, SizeType j) { return mem[at(i, j)]; });
  }
};

// ---- the ways to call an operation
#define OPERATION(name)                                            \
  struct name##_op {                                               \
    template <class... A>                                          \
    auto operator()(A&&... a) const {                              \
      return tile::name(std::forward<A>(a)...);                    \
    }                                                              \
    template <class... A>                                          \
    static auto direct(A&&... a) {                                 \
      return tile::internal::name##_o(std::forward<A>(a)...);      \
    }                                                              \
  };
OPERATION(gemm)
OPERATION(hemm)
OPERATION(her2k)
OPERATION(herk)
OPERATION(trmm)
OPERATION(trmm3)
OPERATION(trsm)
OPERATION(add)
OPERATION(scal)
OPERATION(lange)
OPERATION(lantr)
OPERATION(laset)
OPERATION(set0)
OPERATION(hegst)
OPERATION(lauum)
OPERATION(potrf)
OPERATION(potrfInfo)
OPERATION(stedc)
OPERATION(scaleCol)
OPERATION(trtri)
OPERATION(trtri_info)
OPERATION(lauum_workspace)
OPERATION(trtri_workspace)
#undef OPERATION

enum Form { Direct, Blocking, Sender, Partial, NFORMS };
int form;
template <class O, class... A>
auto call(O op, A... args) {
  using R = decltype(O::direct(args...));
  [[maybe_unused]] std::conditional_t<std::is_void_v<R>, int, R> r{};
  auto run = [&] {
    const dlaf::internal::Policy<Backend::MC> policy(pika::execution::thread_priority::high);
    switch (form) {
      case Blocking:
        if constexpr (sizeof...(A) > 1) {  // (there is no such overload for a single argument)
          if constexpr (std::is_void_v<R>) {
            op(policy, std::move(args)...);
            break;
          }
        }
        [[fallthrough]];
      case Sender:
        if constexpr (std::is_void_v<R>)
          tt::sync_wait(op(policy, ex::just(std::move(args)...)));
        else
          r = tt::sync_wait(op(policy, ex::just(std::move(args)...)));
        break;
      case Partial:
        if constexpr (std::is_void_v<R>)
          tt::sync_wait(dlaf::internal::whenAllLift(std::move(args)...) | op(policy));
        else
          r = tt::sync_wait(dlaf::internal::whenAllLift(std::move(args)...) | op(policy));
        break;
    }
  };
  if (form == Direct) {
    if constexpr (std::is_void_v<R>)
      O::direct(args...);
    else
      r = O::direct(args...);
  }
  else
    vp::ranks(1, 2, [&](int) { run(); });
  if constexpr (!std::is_void_v<R>)
    return r;
}
const Op ops[] = {Op::NoTrans, Op::Trans, Op::ConjTrans};
const Uplo triangles[] = {Uplo::Lower, Uplo::Upper};
const Uplo uplos[] = {Uplo::Lower, Uplo::Upper, Uplo::General};
const Diag diags[] = {Diag::NonUnit, Diag::Unit};
const Side sides[] = {Side::Left, Side::Right};
template <class T, std::size_t N>
T pick_of(const T (&x)[N]) {
  return x[vp::pick(int(N))];
}
template <class T>
T pick_factor() {
  const int k = pick(4);
  return k == 0 ? T(0) : k == 1 ? T(1) : k == 2 ? num<T>(-2, 1) : T(2);
}
template <class T>
T pick_real() {
  const int k = pick(3);
  return k == 0 ? T(0) : k == 1 ? T(1) : T(-2);
}

// what a triangular matrix stands for
template <class T>
Dense<T> full(Uplo uplo, Diag diag, const Dense<T>& a) {
  return Dense<T>(a.m, a.n, [&](SizeType i, SizeType j) { return i == j && diag == Diag::Unit ? T(1) : in(uplo, i, j) ? a(i, j) : T(0); });
}
template <class T>
Dense<T> invert(Uplo uplo, const Dense<T>& a) {
  // by substitution
  const SizeType n = a.m;
  Dense<T> x(n, n);
  for (SizeType c = 0; c < n; ++c)
    for (SizeType k = 0; k < n; ++k) {
      const SizeType i = uplo == Uplo::Lower ? k : n - 1 - k;
      T s = T(i == c ? 1 : 0);
      for (SizeType l = 0; l < n; ++l)
        if (l != i && in(uplo, i, l))
          s -= a(i, l) * x(l, c);
      x(i, c) = s / a(i, i);
    }
  return x;
}
template <class T>
Dense<T> identity(SizeType n) {
  return Dense<T>(n, n, [](SizeType i, SizeType j) { return T(i == j ? 1 : 0); });
}

SizeType dim(SizeType max) {
  return pick(int(form == Direct ? max : std::min<SizeType>(max, 2)) + 1);
}
struct Slack {
  SizeType a, b, c;
};
Slack slack() {
  return form != Direct || pick(2) ? Slack{1, 2, 3} : Slack{0, 0, 0};
}
void context(const char* what, std::string args) {
  vp::context(vp::fmt("%s %s, form %d", what, args.c_str(), form));
  ++vp::n_nontrivial;
}
void start() {
  form = pick(NFORMS);
}

template <class T>
void gemm(SizeType max) {
  start();
  const Op oa = pick_of(ops), ob = pick_of(ops);
  const SizeType m = dim(max), n = dim(max), k = dim(max);
  const auto alpha = pick_factor<T>(), beta = pick_factor<T>();
  const auto s = slack();
  context("gemm", vp::fmt("%s %s %ld %ld %ld alpha %s beta %s slack %ld", name(oa), name(ob), long(m), long(n), long(k), str(alpha).c_str(), str(beta).c_str(), long(s.a)));
  const auto da = oa == Op::NoTrans ? general<T>(m, k, 1) : general<T>(k, m, 1), db = ob == Op::NoTrans ? general<T>(k, n, 2) : general<T>(n, k, 2), dc = general<T>(m, n, 3);
  Arg<T> a(s.a, da), b(s.b, db), c = beta == T(0) ? Arg<T>(m, n, s.c) : Arg<T>(s.c, dc);
  call(gemm_op(), oa, ob, alpha, a.tile(), b.tile(), beta, c.tile());
  c.check("c", alpha * (algo::apply(oa, da) * algo::apply(ob, db)) + beta * dc);
  a.unchanged("a");
  b.unchanged("b");
}

template <class T>
void hemm(SizeType max) {
  start();
  const Side side = pick_of(sides);
  const Uplo uplo = pick_of(triangles);
  const SizeType m = dim(max), n = dim(max), k = side == Side::Left ? m : n;
  const auto alpha = pick_factor<T>(), beta = pick_factor<T>();
  const auto s = slack();
  context("hemm", vp::fmt("%s %s %ld %ld alpha %s beta %s slack %ld", name(side), name(uplo), long(m), long(n), str(alpha).c_str(), str(beta).c_str(), long(s.a)));
  const auto da = hermitian<T>(k, 1), db = general<T>(m, n, 2), dc = general<T>(m, n, 3);
  Arg<T> a(s.a, da, uplo), b(s.b, db), c = beta == T(0) ? Arg<T>(m, n, s.c) : Arg<T>(s.c, dc);
  call(hemm_op(), side, uplo, alpha, a.tile(), b.tile(), beta, c.tile());
  c.check("c", alpha * (side == Side::Left ? da * db : db * da) + beta * dc);
  a.unchanged("a");
  b.unchanged("b");
}
template <class T>
Op pick_herm_op() {
  return isComplex_v<T> ? (pick(2) ? Op::ConjTrans : Op::NoTrans) : pick_of(ops);
}
template <class T>
void her2k(SizeType max) {
  start();
  const Uplo uplo = pick_of(triangles);
  const Op op = pick_herm_op<T>();
  const SizeType n = dim(max), k = dim(max);
  const auto alpha = pick_factor<T>();
  const auto beta = pick_real<BaseType<T>>();
  const auto s = slack();
  context("her2k", vp::fmt("%s %s %ld %ld alpha %s beta %g slack %ld", name(uplo), name(op), long(n), long(k), str(alpha).c_str(), double(beta), long(s.a)));
  const auto da = op == Op::NoTrans ? general<T>(n, k, 1) : general<T>(k, n, 1), db = op == Op::NoTrans ? general<T>(n, k, 2) : general<T>(k, n, 2), dc = hermitian<T>(n, 3);
  const auto oa = algo::apply(op, da), ob = algo::apply(op, db);
  Arg<T> a(s.a, da), b(s.b, db), c = beta == 0 ? Arg<T>(n, n, s.c) : Arg<T>(s.c, dc, uplo);
  call(her2k_op(), uplo, op, alpha, a.tile(), b.tile(), beta, c.tile());
  const auto x = op == Op::NoTrans ? alpha * (da * adj(db)) : alpha * (adj(da) * db);
  c.check("c", x + adj(x) + T(beta) * dc, [=](SizeType i, SizeType j) { return in(uplo, i, j); });
  a.unchanged("a");
  b.unchanged("b");
}
template <class T>
void herk(SizeType max) {
  start();
  const Uplo uplo = pick_of(triangles);
  const Op op = pick_herm_op<T>();
  const SizeType n = dim(max), k = dim(max);
  const auto alpha = pick_real<BaseType<T>>(), beta = pick_real<BaseType<T>>();
  const auto s = slack();
  context("herk", vp::fmt("%s %s %ld %ld alpha %g beta %g slack %ld", name(uplo), name(op), long(n), long(k), double(alpha), double(beta), long(s.a)));
  const auto da = op == Op::NoTrans ? general<T>(n, k, 1) : general<T>(k, n, 1), dc = hermitian<T>(n, 3);
  Arg<T> a(s.a, da), c = beta == 0 ? Arg<T>(n, n, s.c) : Arg<T>(s.c, dc, uplo);
  call(herk_op(), uplo, op, alpha, a.tile(), beta, c.tile());
  c.check("c", T(alpha) * (op == Op::NoTrans ? da * adj(da) : adj(da) * da) + T(beta) * dc, [=](SizeType i, SizeType j) { return in(uplo, i, j); });
  a.unchanged("a");
}
enum Tr { Trmm, Trmm3, Trsm };
template <class T>
void tr(SizeType max) {
  start();
  const int what = pick(3);
  const Side side = pick_of(sides);
  const Uplo uplo = pick_of(triangles);
  const Op op = pick_of(ops);
  const Diag diag = pick_of(diags);
  const SizeType m = dim(max), n = dim(max), k = side == Side::Left ? m : n;
  const auto alpha = pick_factor<T>();
  const auto s = slack();
  context(what == Trmm ? "trmm" : what == Trmm3 ? "trmm3" : "trsm", vp::fmt("%s %s %s %s %ld %ld alpha %s slack %ld", name(side), name(uplo), name(op), name(diag), long(m), long(n), str(alpha).c_str(), long(s.a)));
  const auto da = triangular<T>(k, uplo, diag, 1), db = general<T>(m, n, 2);
  const auto oa = algo::apply(op, what == Trsm ? invert(uplo, da) : da);
  const auto want = alpha * (side == Side::Left ? oa * db : db * oa);
  Arg<T> a(s.a, da, uplo, diag), b(s.b, db);
  if (what == Trmm3) {
    Arg<T> c(m, n, s.c);
    call(trmm3_op(), side, uplo, op, diag, alpha, a.tile(), b.tile(), c.tile());
    c.check("c", want);
    b.unchanged("b");
  }
  else {
    if (what == Trmm)
      call(trmm_op(), side, uplo, op, diag, alpha, a.tile(), b.tile());
    else
      call(trsm_op(), side, uplo, op, diag, alpha, a.tile(), b.tile());
    b.check("b", want);
  }
  a.unchanged("a");
}

template <class T>
void copies(SizeType max) {
  form = Direct;
  const SizeType m = dim(max), n = dim(max);
  const auto s = slack();
  const auto da = general<T>(m, n, 1);
  Arg<T> a(s.a, da);
  if (pick(2) == 0) {
    context("lacpy", vp::fmt("%ld %ld slack %ld", long(m), long(n), long(s.a)));
    Arg<T> b(m, n, s.b);
    tile::lacpy<T>(a.tile(), b.tile());
    b.check("b", da);
  }
  else {
    const SizeType m2 = dim(max), n2 = dim(max), r = pick(int(std::min(m, m2)) + 1), c = pick(int(std::min(n, n2)) + 1);
    const SizeType i1 = pick(int(m - r) + 1), j1 = pick(int(n - c) + 1), i2 = pick(int(m2 - r) + 1), j2 = pick(int(n2 - c) + 1);
    context("lacpy", vp::fmt("region %ld %ld of %ld %ld at (%ld,%ld) to %ld %ld at (%ld,%ld) slack %ld", long(r), long(c), long(m), long(n), long(i1), long(j1), long(m2), long(n2), long(i2), long(j2), long(s.a)));
    if (i1 >= m || j1 >= n || i2 >= m2 || j2 >= n2)
      return;  // (an index is that of an element)
    Arg<T> b(m2, n2, s.b);
    tile::lacpy<T>({r, c}, {i1, j1}, a.tile(), {i2, j2}, b.tile());
    b.check("b", [&](SizeType i, SizeType j) { return da(i - i2 + i1, j - j2 + j1); }, [=](SizeType i, SizeType j) { return i >= i2 && i < i2 + r && j >= j2 && j < j2 + c; });
  }
  a.unchanged("a");
}

template <class T>
double norm(lapack::Norm what, const Dense<T>& a) {
  double r = 0;
  switch (what) {
    case lapack::Norm::One:
      for (SizeType j = 0; j < a.n; ++j) {
        double s = 0;
        for (SizeType i = 0; i < a.m; ++i)
          s += std::abs(a(i, j));
        r = std::max(r, s);
      }
      return r;
    case lapack::Norm::Inf:
      for (SizeType i = 0; i < a.m; ++i) {
        double s = 0;
        for (SizeType j = 0; j < a.n; ++j)
          s += std::abs(a(i, j));
        r = std::max(r, s);
      }
      return r;
    case lapack::Norm::Fro:
      for (const auto& x : a.v)
        r += std::norm(x);
      return std::sqrt(r);
    default:
      for (const auto& x : a.v)
        r = std::max(r, double(std::abs(x)));
      return r;
  }
}
const lapack::Norm norms[] = {lapack::Norm::Max, lapack::Norm::One, lapack::Norm::Inf, lapack::Norm::Fro};
template <class T>
void check_norm(double got, double want) {
  VP_CHECK(std::abs(got - want) <= 64 * double(std::numeric_limits<BaseType<T>>::epsilon()) * (1 + want), "the norm is %.17g instead of %.17g", got, want);
}
template <class T>
void norm_of(SizeType max) {
  start();
  const auto what = pick_of(norms);
  const SizeType m = dim(max), n = dim(max);
  const auto s = slack();
  const auto d = general<T>(m, n, pick(7));
  if (pick(2) == 0) {
    context("lange", vp::fmt("%c %ld %ld slack %ld", char(what), long(m), long(n), long(s.a)));
    Arg<T> a(s.a, d);
    check_norm<T>(call(lange_op(), what, a.tile()), norm(what, d));
    a.unchanged("a");
  }
  else {
    const Uplo uplo = pick_of(triangles);
    const Diag diag = pick_of(diags);
    context("lantr", vp::fmt("%c %s %s %ld %ld slack %ld", char(what), name(uplo), name(diag), long(m), long(n), long(s.a)));
    if (uplo == Uplo::Lower ? m < n : m > n)
      return;
    Arg<T> a(s.a, d, uplo, diag);
    check_norm<T>(call(lantr_op(), what, uplo, diag, a.tile()), norm(what, full(uplo, diag, d)));
    a.unchanged("a");
  }
}

template <class T>
void sets(SizeType max) {
  start();
  const SizeType m = dim(max), n = dim(max);
  const auto s = slack();
  const auto d = general<T>(m, n, 1);
  Arg<T> a(s.a, d);
  switch (pick(5)) {
    case 0: {
      const Uplo uplo = pick_of(uplos);
      const auto alpha = pick_factor<T>(), beta = pick_factor<T>();
      context("laset", vp::fmt("%s %ld %ld %s %s slack %ld", name(uplo), long(m), long(n), str(alpha).c_str(), str(beta).c_str(), long(s.a)));
      call(laset_op(), uplo, alpha, beta, a.tile());
      a.check("a", [=](SizeType i, SizeType j) { return i == j ? beta : alpha; }, [=](SizeType i, SizeType j) { return in(uplo, i, j); });
      break;
    }
    case 1: {
      context("set0", vp::fmt("%ld %ld slack %ld", long(m), long(n), long(s.a)));
      Arg<T> b(m, n, s.b);
      call(set0_op(), b.tile());
      b.check("a", [](SizeType, SizeType) { return T(0); });
      break;
    }
    case 2: {
      const auto alpha = pick_factor<T>();
      const SizeType col = pick(int(n) + 1);
      context("scaleCol", vp::fmt("%ld %ld column %ld by %s slack %ld", long(m), long(n), long(col), str(alpha).c_str(), long(s.a)));
      if (col == n)
        return;
      if (m == 0)
        return;  // (there is no pointer to the column)
      call(scaleCol_op(), alpha, col, a.tile());
      a.check("a", [&](SizeType i, SizeType j) { return alpha * d(i, j); }, [=](SizeType, SizeType j) { return j == col; });
      break;
    }
    case 3: {
      const auto alpha = pick_factor<T>();
      const auto db = general<T>(m, n, 2);
      context("add", vp::fmt("%ld %ld by %s slack %ld", long(m), long(n), str(alpha).c_str(), long(s.a)));
      Arg<T> b(s.b, db);
      call(add_op(), alpha, b.tile(), a.tile());
      a.check("a", d + alpha * db);
      b.unchanged("b");
      break;
    }
    case 4: {
      const auto beta = pick_factor<T>();
      context("scal", vp::fmt("%ld %ld by %s slack %ld", long(m), long(n), str(beta).c_str(), long(s.a)));
      call(scal_op(), beta, a.tile());
      a.check("a", beta * d);
      break;
    }
  }
}

template <class T>
void triangle(SizeType max) {
  start();
  const int what = pick(4);
  const Uplo uplo = pick_of(triangles);
  const SizeType n = dim(max);
  const auto s = slack();
  const int seed = pick(3);
  auto out = [=](SizeType i, SizeType j) { return in(uplo, i, j); };
  if (what < 2) {  // A = L^H L or U U^H
    const auto d = triangular<T>(n, uplo, Diag::NonUnit, seed);
    Arg<T> a(s.a, d, uplo);
    const auto want = uplo == Uplo::Lower ? adj(d) * d : d * adj(d);
    context(what == 0 ? "lauum" : "lauum_workspace", vp::fmt("%s %ld seed %d slack %ld", name(uplo), long(n), seed, long(s.a)));
    // (as in LAPACK: the diagonal of a factor is real)
    Dense<T> real = d;
    for (SizeType i = 0; i < n; ++i)
      real(i, i) = T(std::abs(d(i, i)));
    Arg<T> r(s.a, real, uplo);
    if (what == 0) {
      call(lauum_op(), uplo, r.tile());
      r.check("a", uplo == Uplo::Lower ? adj(real) * real : real * adj(real), out);
    }
    else {
      const SizeType more = pick(2);
      Arg<T> ws(n + more, n + 2 * more, s.b);
      call(lauum_workspace_op(), uplo, a.tile(), ws.tile());
      a.check("a", want, out);
    }
    return;
  }
  const Diag diag = pick_of(diags);
  const auto d = triangular<T>(n, uplo, diag, seed);
  Arg<T> a(s.a, d, uplo, diag);
  auto changed = [=](SizeType i, SizeType j) { return in(uplo, i, j) && !(i == j && diag == Diag::Unit); };
  const auto want = invert(uplo, d);
  if (what == 2) {
    const bool info = pick(2);
    context(info ? "trtri_info" : "trtri", vp::fmt("%s %s %ld seed %d slack %ld", name(uplo), name(diag), long(n), seed, long(s.a)));
    if (!info)
      call(trtri_op(), uplo, diag, a.tile());
    else {
      // with a zero on the diagonal
      const SizeType zero = pick(int(n) + 1);
      if (zero < n && diag == Diag::NonUnit) {
        auto d0 = d;
        d0(zero, zero) = T(0);
        Arg<T> b(s.b, d0, uplo);
        const auto r = call(trtri_info_op(), uplo, diag, b.tile());
        VP_CHECK(r == zero + 1, "info is %ld instead of %ld", long(r), long(zero + 1));
        b.check("a", d0, [](SizeType, SizeType) { return false; });
        return;
      }
      const auto r = call(trtri_info_op(), uplo, diag, a.tile());
      VP_CHECK(r == 0, "info is %ld instead of 0", long(r));
    }
  }
  else {
    const SizeType more = pick(2);
    context("trtri_workspace", vp::fmt("%s %s %ld seed %d slack %ld, workspace + %ld", name(uplo), name(diag), long(n), seed, long(s.a), long(more)));
    Arg<T> ws(n + more, n + 2 * more, s.b);
    call(trtri_workspace_op(), uplo, diag, a.tile(), ws.tile());
  }
  a.check("a", want, changed);
}

template <class T>
void factor(SizeType max) {
  start();
  const Uplo uplo = pick_of(triangles);
  const SizeType n = dim(max);
  const auto s = slack();
  const int seed = pick(3);
  auto out = [=](SizeType i, SizeType j) { return in(uplo, i, j); };
  const auto l = lower_factor<T>(n, seed);
  const auto d = l * adj(l);
  const auto f = uplo == Uplo::Lower ? l : adj(l);
  switch (pick(3)) {
    case 0: {
      context("potrf", vp::fmt("%s %ld seed %d slack %ld", name(uplo), long(n), seed, long(s.a)));
      Arg<T> a(s.a, d, uplo);
      call(potrf_op(), uplo, a.tile());
      a.check("a", f, out);
      break;
    }
    case 1: {
      // the leading minor of order bad + 1 is not positive definite
      const SizeType bad = pick(int(n) + 1);
      const bool zero = pick(2);
      context("potrfInfo", vp::fmt("%s %ld seed %d slack %ld bad %ld zero %d", name(uplo), long(n), seed, long(s.a), long(bad), zero));
      auto db = d;
      if (bad < n)
        db(bad, bad) -= l(bad, bad) * l(bad, bad) + T(zero ? 0 : 1);
      Arg<T> a(s.a, db, uplo);
      const auto r = call(potrfInfo_op(), uplo, a.tile());
      VP_CHECK(r == (bad < n ? bad + 1 : 0), "info is %ld", long(r));
      if (bad == n)
        a.check("a", f, out);
      else
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < n; ++i)
            VP_CHECK(out(i, j) || std::memcmp(&a.mem[a.at(i, j)], &a.before[a.at(i, j)], sizeof(T)) == 0, "element (%ld,%ld) has changed", long(i), long(j));
      break;
    }
    case 2: {
      const int itype = 1 + pick(3);
      context("hegst", vp::fmt("%d %s %ld seed %d slack %ld", itype, name(uplo), long(n), seed, long(s.a)));
      const auto da = hermitian<T>(n, seed);
      Arg<T> a(s.a, da, uplo), b(s.b, f, uplo);
      call(hegst_op(), itype, uplo, a.tile(), b.tile());
      // B = L L^H = U^H U
      const auto inv = invert(Uplo::Lower, l);
      a.check("a", itype == 1 ? inv * da * adj(inv) : adj(l) * da * l, out, 1 + norm(lapack::Norm::Inf, inv) * norm(lapack::Norm::Inf, inv));
      b.unchanged("b");
      break;
    }
  }
}

template <class T>
void tridiagonal(SizeType max) {
  start();
  const SizeType n = 1 + dim(max - 1);
  const auto s = slack();
  // all small tridiagonal matrices
  Dense<T> t(n, 2);
  std::string txt;
  for (SizeType i = 0; i < n; ++i) {
    t(i, 0) = T(pick(3) - 1);
    if (i + 1 < n)
      t(i, 1) = T(pick(3) - 1);
    txt += vp::fmt("%g,%g ", double(t(i, 0)), double(t(i, 1)));
  }
  context("stedc", vp::fmt("%s slack %ld", txt.c_str(), long(s.a)));
  t(n - 1, 1) = T(77);
  Arg<T> a(s.a, t), z(n, n, s.b);
  call(stedc_op(), a.tile(), z.tile());
  // (the second column is work space)
  const auto tol = T(100 * n) * std::numeric_limits<T>::epsilon();
  Dense<T> full(n, n), lambda(n, n);
  const auto vec = z.dense(), val = a.dense();
  for (SizeType i = 0; i < n; ++i) {
    full(i, i) = t(i, 0);
    lambda(i, i) = val(i, 0);
    VP_CHECK(i == 0 || val(i, 0) >= val(i - 1, 0), "the eigenvalues are not in ascending order");
    if (i + 1 < n)
      full(i + 1, i) = full(i, i + 1) = t(i, 1);
  }
  const auto av = full * vec, vl = vec * lambda, vv = adj(vec) * vec;
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < n; ++i) {
      VP_CHECK(std::abs(av(i, j) - vl(i, j)) <= tol, "residual (%ld,%ld) is %g", long(i), long(j), double(av(i, j) - vl(i, j)));
      VP_CHECK(std::abs(vv(i, j) - T(i == j)) <= tol, "the eigenvectors are not orthonormal: (%ld,%ld) is %g", long(i), long(j), double(vv(i, j)));
    }
  a.check("tridiagonal", [&](SizeType i, SizeType j) { return val(i, j); });
  z.check("eigenvectors", vec);
}

// ---- refusals: the shapes of the operands have to agree
template <class T>
void shapes(SizeType max) {
  form = Direct;
  const int what = pick(14);
  auto sz = [&] {
    const SizeType m = 1 + pick(int(max)), n = 1 + pick(int(max));
    return TileElementSize(m, n);
  };
  auto arg = [](TileElementSize s, int seed) { return Arg<T>(0, general<T>(s.rows(), s.cols(), seed)); };
  const Side side = pick_of(sides);
  const Op oa = pick_of(ops), ob = what == 0 ? pick_of(ops) : Op::NoTrans;
  const bool left = side == Side::Left;
  const auto sa = sz(), sb = what == 3 || what >= 7 && what <= 11 ? TileElementSize(1, 1) : sz();
  const bool three = what == 0 || what == 1 || what == 2 || what == 5;
  const auto sc = three || what == 3 ? sz() : TileElementSize(1, 1);
  auto sq = [](TileElementSize s) { return s.rows() == s.cols(); };
  auto after = [](Op o, TileElementSize s) { return o == Op::NoTrans ? s : TileElementSize(s.cols(), s.rows()); };
  auto a = arg(sa, 1), b = arg(sb, 2), c = arg(sc, 3);
  const bool herm_ok = !isComplex_v<T> || oa != Op::Trans;
  bool ok = false;
  const auto A = after(oa, sa), B = after(ob, sb);
  // (what gets computed is not looked at)
  auto ta = a.tile(), tb = b.tile(), tc = c.tile();
  const char* names[] = {"gemm", "hemm", "her2k", "herk", "trmm", "trmm3", "trsm", "lauum", "potrfInfo", "trtri_info", "lauum_workspace", "trtri_workspace", "hegst", "add"};
  vp::context(vp::fmt("%s %s %s %s: a %ldx%ld b %ldx%ld c %ldx%ld", names[what], name(side), name(oa), name(ob), long(sa.rows()), long(sa.cols()), long(sb.rows()), long(sb.cols()), long(sc.rows()), long(sc.cols())));
  ++vp::n_nontrivial;
  // (well conditioned: what has a diagonal has ones there)
  for (SizeType i = 0; i < std::min(sa.rows(), sa.cols()); ++i)
    ta({i, i}) = T(10);
  for (SizeType i = 0; i < std::min(sb.rows(), sb.cols()); ++i)
    tb({i, i}) = T(10);
  std::vector<T> ws_mem(16);
  Tile<T, D> ws({3, 3}, memory::MemoryView<T, D>(ws_mem.data(), 9), 3);
  const bool died = vp::dies([&] {
    switch (what) {
      case 0: tile::internal::gemm<T>(oa, ob, T(1), ta, tb, T(1), tc); break;
      case 1: tile::internal::hemm<T>(side, Uplo::Lower, T(1), ta, tb, T(1), tc); break;
      case 2: tile::internal::her2k<T>(Uplo::Lower, oa, T(1), ta, tb, 1, tc); break;
      case 3: tile::internal::herk<T>(Uplo::Lower, oa, 1, ta, 1, tc); break;
      case 4: tile::internal::trmm<T>(side, Uplo::Lower, oa, Diag::NonUnit, T(1), ta, tb); break;
      case 5: tile::internal::trmm3<T>(side, Uplo::Lower, oa, Diag::NonUnit, T(1), ta, tb, tc); break;
      case 6: tile::internal::trsm<T>(side, Uplo::Lower, oa, Diag::NonUnit, T(1), ta, tb); break;
      case 7: tile::internal::lauum<T>(Uplo::Lower, ta); break;
      case 8: tile::internal::potrfInfo<T>(Uplo::Lower, ta); break;
      case 9: tile::internal::trtri_info<T>(Uplo::Lower, Diag::NonUnit, ta); break;
      case 10: tile::internal::lauum_workspace<T>(Uplo::Lower, ta, ws); break;
      case 11: tile::internal::trtri_workspace<T>(Uplo::Lower, Diag::NonUnit, ta, ws); break;
      case 12: tile::internal::hegst<T>(1, Uplo::Lower, ta, tb); break;
      case 13: tile::internal::add<T>(T(1), tb, ta); break;
    }
  });
  switch (what) {
    case 0: ok = A.rows() == sc.rows() && B.cols() == sc.cols() && A.cols() == B.rows(); break;
    case 1: ok = sq(sa) && sb == sc && sa.rows() == (left ? sc.rows() : sc.cols()); break;
    case 2: ok = herm_ok && sq(sc) && sa == sb && A.rows() == sc.rows(); break;
    case 3: ok = herm_ok && sq(sc) && A.rows() == sc.rows(); break;
    case 4:
    case 6: ok = sq(sa) && sa.rows() == (left ? sb.rows() : sb.cols()); break;
    case 5: ok = sq(sa) && sb == sc && sa.rows() == (left ? sb.rows() : sb.cols()); break;
    case 12: ok = sq(sa) && sq(sb) && sa == sb; break;
    case 13: ok = sa == sb; break;
    default: ok = sq(sa);
  }
  VP_CHECK(died == !ok, "%s", ok ? "refused" : "not refused");
}

template <class T>
void add_cases(std::vector<vp::Case>& cs, const std::string& type, bool thorough) {
  const SizeType max = thorough ? 6 : 4;
  cs.push_back(vp::history_case("gemm " + type, [=] { gemm<T>(max); }, 3));
  cs.push_back(vp::history_case("hemm " + type, [=] { hemm<T>(max); }, 3));
  cs.push_back(vp::history_case("her2k " + type, [=] { her2k<T>(max); }, 3));
  cs.push_back(vp::history_case("herk " + type, [=] { herk<T>(max); }, 3));
  cs.push_back(vp::history_case("trmm, trmm3, trsm " + type, [=] { tr<T>(max); }, 3));
  cs.push_back(vp::history_case("lacpy " + type, [=] { copies<T>(max); }, 3));
  cs.push_back(vp::history_case("lange, lantr " + type, [=] { norm_of<T>(max + 1); }, 3));
  cs.push_back(vp::history_case("laset, set0, scaleCol, add, scal " + type, [=] { sets<T>(max); }, 3));
  cs.push_back(vp::history_case("lauum, trtri " + type, [=] { triangle<T>(max + 2); }, 3));
  cs.push_back(vp::history_case("potrf, hegst " + type, [=] { factor<T>(max + 2); }, 3));
  if constexpr (!isComplex_v<T>)
    cs.push_back(vp::history_case("stedc " + type, [=] { tridiagonal<T>(thorough ? 6 : 5); }, 4));
  cs.push_back(vp::history_case("shapes " + type, [=] { shapes<T>(thorough ? 3 : 2); }, 2));
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P41";
    s.rule = "every operation with every combination of its flags, shapes and scaling factors within the bound, packed and padded storage, called directly and in the three sender forms; operands that are not referenced are NaN; "
             "non-trivial: an operation was called and its operands compared";
    add_cases<float>(s.cases, "float", thorough);
    add_cases<double>(s.cases, "double", thorough);
    add_cases<std::complex<float>>(s.cases, "complex<float>", thorough);
    add_cases<std::complex<double>>(s.cases, "complex<double>", thorough);
    s.samples = {"gemm C N 2 3 1 with beta 0 and c full of NaN", "trtri_workspace upper unit with NaN on the diagonal and below"};
    return s;
  });
}
