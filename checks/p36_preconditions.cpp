// P36: the entry points of the algorithms refuse invalid arguments and accept the valid ones.
// For every entry point all calls that differ in at most two arguments from a valid call.
// as in a release build: no heavy assertion stands in for a documented one
#undef DLAF_ASSERT_HEAVY_ENABLE
#include <dlaf/auxiliary/norm.h>
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/permutations/general.h>
#include <dlaf/solver/triangular.h>
#include <dlaf/util_matrix.h>

#include "algo.hpp"

using namespace algo;
using matrix::internal::MatrixRef;
using comm::Size2D;
using comm::Index2D;
constexpr auto B = Backend::MC;
constexpr auto D = Device::CPU;
using Mat = Matrix<double, D>;
using CMat = Matrix<const double, D>;
using Perm = Matrix<const SizeType, D>;

namespace {
enum Verdict { Accept, Reject, Unspecified };
enum Kind { Diagonal, Zeros, Index };

struct Arg {
  SizeType r, c, mb, nb;   // size and block size
  int tr = 1, tc = 1;      // tiles per block
  int grid = 0;            // 0: as documented, 1: distributed (for a local argument) or local, 2: on the transposed grid, 3: of another rank
  Kind kind = Diagonal;
};
struct Call {
  std::vector<Arg> a;
  std::vector<SizeType> i;
  bool dist;
  bool odd(std::size_t k) const {  // not stored where it should be
    return a[k].grid != 0;
  }
};
struct Args {
  CommunicatorGrid* grid;
  std::vector<std::unique_ptr<Mat>> m;
  std::unique_ptr<Matrix<SizeType, D>> p;
  std::vector<SizeType> i;
  Mat& operator[](std::size_t k) {
    return *m[k];
  }
};
struct Entry {
  std::string name;
  std::vector<bool> local;                         // arguments that are local also for the distributed entry point
  std::function<Call(SizeType n)> base;            // a valid call with matrices of order n (block size 2)
  std::vector<std::vector<SizeType>> ints;         // alternatives of the numbers (in addition to those of base)
  std::function<Verdict(const Call&)> verdict;
  std::function<void(Args&)> local_call, dist_call;
};

// ---- documented preconditions ---------------------------------------------------------------------
bool square(const Arg& a) {
  return a.r == a.c;
}
bool square_block(const Arg& a) {
  return a.mb == a.nb;
}
bool one_tile(const Arg& a) {
  return a.tr == 1 && a.tc == 1;
}
bool same_size(const Arg& a, const Arg& b) {
  return a.r == b.r && a.c == b.c;
}
bool same_block(const Arg& a, const Arg& b) {
  return a.mb == b.mb && a.nb == b.nb;
}
// (N x N), blocks (NB x NB), tiles (NB x NB), stored as required
bool std_square(const Call& c, std::size_t k) {
  const Arg& a = c.a[k];
  return square(a) && square_block(a) && one_tile(a) && !c.odd(k);
}
Verdict when(bool ok) {
  return ok ? Accept : Reject;
}

// Runs f, which must refuse its arguments at once: by the calling thread and before any work is submitted
bool active = false;
std::uint64_t tasks0, id0;
template <class F>
bool refuses(F&& f) {
  static vp::detail::null_buf nb;
  if (active)
    vp::violation("a call with invalid arguments communicates or waits before it is refused");
  active = true;
  tasks0 = vp::stats.tasks;
  id0 = vp::current_task_id();
  auto* old = std::cerr.rdbuf(&nb);
  auto old_t = std::set_terminate([] {
    if (vp::current_task_id() != id0)
      vp::violation("invalid arguments are only noticed by a task");
    longjmp(vp::detail::death_jmp, 1);
  });
  bool died = false;
  if (setjmp(vp::detail::death_jmp) == 0)
    f();
  else
    died = true;
  std::set_terminate(old_t);
  std::cerr.rdbuf(old);
  active = false;
  if (died)
    VP_CHECK(vp::stats.tasks == tasks0, "%d tasks were submitted before the arguments were refused", int(vp::stats.tasks - tasks0));
  return died;
}

Distribution distribution(const Arg& a, bool local, const Size2D& gs, const Index2D& rk) {
  Size2D g = local ? Size2D(1, 1) : gs;
  Index2D r = local ? Index2D(0, 0) : rk;
  if (a.grid == 1) {
    g = local ? Size2D(2, 1) : Size2D(1, 1);
    r = Index2D(0, 0);
  }
  else if (a.grid == 2) {
    g = Size2D(g.cols(), g.rows());
    r = Index2D(r.col(), r.row());
  }
  else if (a.grid == 3)
    r = Index2D((r.row() + 1) % g.rows(), r.col());
  return Distribution(GlobalElementSize(a.r, a.c), GlobalElementSize(a.mb, a.nb), TileElementSize(a.mb / a.tr, a.nb / a.tc), g, r, Index2D(0, 0));
}

template <class T>
std::unique_ptr<Matrix<T, D>> make(const Arg& a, bool local, const Size2D& gs, const Index2D& rk) {
  auto m = std::make_unique<Matrix<T, D>>(distribution(a, local, gs, rk));
  matrix::util::set(*m, [k = a.kind](const GlobalElementIndex& i) {
    return k == Zeros ? T(0) : k == Index ? T(i.row()) : i.row() == i.col() ? T(4) : T(0);
  });
  m->waitLocalTiles();
  return m;
}

struct Deviation {
  int arg;    // -1: none, -2: all the matrices
  int field;  // of the argument
  SizeType val;
};

constexpr int GRID = 9;
void apply(Arg& a, int field) {
  switch (field) {
    case 0: a.r += 1; break;
    case 1: a.c += 1; break;
    case 2: a.mb += 1; break;
    case 3: a.nb += 1; break;
    case 4: a.tr = 2; break;
    case 5: a.tc = 2; break;
    case 6: a.r += 1, a.c += 1; break;
    case 7: a.mb += 2, a.nb += 2; break;
    case 8: a.tr = a.tc = 2; break;
    default: a.grid = field - GRID + 1;
  }
}
void apply(Call& c, const Deviation& d) {
  if (d.arg == -1)
    return;
  if (d.arg == -2)
    for (auto& a : c.a)
      apply(a, d.field);
  else if (std::size_t(d.arg) < c.a.size())
    apply(c.a[std::size_t(d.arg)], d.field);
  else
    c.i[std::size_t(d.arg) - c.a.size()] = d.val;
}

void run(const Entry& e, bool dist, SizeType n) {
  Call c = e.base(n);
  c.dist = dist;
  std::vector<Deviation> devs{{-1, 0, 0}};
  for (std::size_t k = 0; k < c.a.size(); ++k)
    for (int f = 0; f < GRID + (dist && !e.local[k] ? 3 : 1); ++f)
      devs.push_back({int(k), f, 0});
  if (c.a.size() > 1)
    for (int f = 0; f <= GRID; ++f)
      devs.push_back({-2, f, 0});
  for (std::size_t k = 0; k < c.i.size(); ++k)
    for (SizeType v : e.ints[k])
      devs.push_back({int(k + c.a.size()), 0, v});
  const int d1 = pick(int(devs.size()));
  const int d2 = d1 == 0 ? 0 : pick(d1);  // unordered pairs
  const Deviation &x = devs[std::size_t(d1)], &y = devs[std::size_t(d2)];
  if (x.arg >= 0 && y.arg == x.arg && (std::size_t(x.arg) >= c.a.size() || (x.field >= GRID && y.field >= GRID)))
    return;  // the same thing twice
  apply(c, x);
  apply(c, y);
  for (const auto& a : c.a)
    if (a.mb % a.tr || a.nb % a.tc)
      return;  // not a distribution
  std::string s = e.name + (dist ? " distributed:" : " local:");
  for (const auto& a : c.a)
    s += vp::fmt(" [%ldx%ld blocks %ldx%ld tiles %ldx%ld grid %d]", long(a.r), long(a.c), long(a.mb), long(a.nb), long(a.mb / a.tr), long(a.nb / a.tc), a.grid);
  for (auto i : c.i)
    s += vp::fmt(" %ld", long(i));
  vp::context(s);
  const Verdict v = e.verdict(c);
  if (v == Unspecified)
    return;
  active = false;
  auto on_rank = [&](int rank) {
    std::unique_ptr<CommunicatorGrid> grid;
    if (dist)
      grid = std::make_unique<CommunicatorGrid>(Communicator(MPI_COMM_WORLD), 2, 1, common::Ordering::ColumnMajor);
    {
      Args args;
      args.grid = grid.get();
      args.i = c.i;
      for (std::size_t k = 0; k < c.a.size(); ++k) {
        if (c.a[k].kind == Index)
          args.p = make<SizeType>(c.a[k], e.local[k] || !dist, {2, 1}, {rank, 0});
        else
          args.m.push_back(make<double>(c.a[k], e.local[k] || !dist, {2, 1}, {rank, 0}));
      }
      auto call = [&] { (dist ? e.dist_call : e.local_call)(args); };
      if (v == Reject) {
        const bool r = refuses(call);
        VP_CHECK(r, "invalid arguments are accepted");
      }
      else {
        call();
        for (auto& m : args.m)
          m->waitLocalTiles();
        vp::count_check();
      }
    }
    if (grid && v == Accept)
      grid->wait_all_communicators();
  };
  if (v == Accept)
    vp::ranks(dist ? 2 : 1, 2, on_rank);
  else {
    // (a failed assertion would end the program: what the callee had created so far is not released)
    vp::mpi_set_initialized(true);
    vp::run_ranks({dist ? 2 : 1, 2, false}, on_rank);
    vp::pool_reset();
  }
  ++vp::n_nontrivial;
}

// ---- the entry points -----------------------------------------------------------------------------
std::vector<Entry> entries() {
  std::vector<Entry> es;
  auto one = [](SizeType n) { return Call{{{n, n, 2, 2}}, {}, false}; };
  auto std1 = [](const Call& c) { return when(std_square(c, 0)); };
  auto tile1 = [](const Call& c) {
    const Arg& a = c.a[0];
    // tiles (NB x NB), whatever the blocks
    if (!one_tile(a) && square(a) && !c.odd(0) && a.mb / a.tr == a.nb / a.tc)
      return Unspecified;
    return when(square(a) && a.mb / a.tr == a.nb / a.tc && !c.odd(0));
  };
  for (auto uplo : {blas::Uplo::Lower, blas::Uplo::Upper}) {
    const std::string u = uplo == blas::Uplo::Lower ? " lower" : " upper";
    es.push_back({"cholesky_factorization" + u, {false}, one, {}, std1,
                  [=](Args& x) { cholesky_factorization<B, D, double>(uplo, x[0]); },
                  [=](Args& x) { cholesky_factorization<B, D, double>(*x.grid, uplo, x[0]); }});
    es.push_back({"triangular_inverse" + u, {false}, one, {}, tile1,
                  [=](Args& x) { triangular_inverse<B, D, double>(uplo, blas::Diag::NonUnit, x[0]); },
                  [=](Args& x) { triangular_inverse<B, D, double>(*x.grid, uplo, blas::Diag::NonUnit, x[0]); }});
    es.push_back({"inverse_from_cholesky_factor" + u, {false}, one, {}, tile1,
                  [=](Args& x) { inverse_from_cholesky_factor<B, D, double>(uplo, x[0]); },
                  [=](Args& x) { inverse_from_cholesky_factor<B, D, double>(*x.grid, uplo, x[0]); }});
    es.push_back({"generalized_to_standard" + u, {false, false}, [](SizeType n) { return Call{{{n, n, 2, 2}, {n, n, 2, 2}}, {}, false}; }, {},
                  [](const Call& c) { return when(std_square(c, 0) && std_square(c, 1) && same_size(c.a[0], c.a[1]) && same_block(c.a[0], c.a[1])); },
                  [=](Args& x) { eigensolver::internal::generalized_to_standard<B, D, double>(uplo, x[0], x[1]); },
                  [=](Args& x) { eigensolver::internal::generalized_to_standard<B, D, double>(*x.grid, uplo, x[0], x[1]); }});
  }
  for (auto side : {blas::Side::Left, blas::Side::Right})
    for (auto op : {blas::Op::NoTrans, blas::Op::ConjTrans}) {
      const bool left = side == blas::Side::Left;
      const std::string s = std::string(left ? " left" : " right") + (op == blas::Op::NoTrans ? "" : " transposed");
      auto base = [=](SizeType n) { return Call{{{n, n, 2, 2}, left ? Arg{n, 3, 2, 2} : Arg{3, n, 2, 2}}, {}, false}; };
      auto ok = [=](const Call& c) {
        const Arg &a = c.a[0], &b = c.a[1];
        return when(std_square(c, 0) && one_tile(b) && !c.odd(1) && a.r == (left ? b.r : b.c) && (a.mb == (left ? b.mb : b.nb)));
      };
      // the distribution of an empty matrix does not matter
      auto ok0 = [=](const Call& c) {
        const Arg &a = c.a[0], &b = c.a[1];
        if (std_square(c, 0) && one_tile(b) && !c.odd(1) && (a.r == 0 || b.r == 0 || b.c == 0) && a.r == (left ? b.r : b.c))
          return same_block(a, b) ? Accept : Unspecified;
        return ok(c);
      };
      es.push_back({"triangular_solver" + s, {false, false}, base, {}, ok0,
                    [=](Args& x) { triangular_solver<B, D, double>(side, blas::Uplo::Lower, op, blas::Diag::NonUnit, 1., x[0], x[1]); },
                    [=](Args& x) { triangular_solver<B, D, double>(*x.grid, side, blas::Uplo::Lower, op, blas::Diag::NonUnit, 1., x[0], x[1]); }});
      es.push_back({"triangular_multiplication" + s, {false, false}, base, {}, ok0,
                    [=](Args& x) { triangular_multiplication<B, D, double>(side, blas::Uplo::Lower, op, blas::Diag::NonUnit, 1., x[0], x[1]); },
                    op == blas::Op::NoTrans ? std::function<void(Args&)>([=](Args& x) { triangular_multiplication<B, D, double>(*x.grid, side, blas::Uplo::Lower, op, blas::Diag::NonUnit, 1., x[0], x[1]); })
                                            : std::function<void(Args&)>()});
    }
  for (auto side : {blas::Side::Left, blas::Side::Right}) {
    const bool left = side == blas::Side::Left;
    auto base = [=](SizeType n) { return Call{{{n, n, 2, 2}, left ? Arg{n, 3, 2, 2} : Arg{3, n, 2, 2}, left ? Arg{n, 3, 2, 2} : Arg{3, n, 2, 2}}, {}, false}; };
    auto ok = [=](const Call& c) {
      const Arg &a = c.a[0], &b = c.a[1], &x = c.a[2];
      const bool fit = std_square(c, 0) && one_tile(b) && one_tile(x) && !c.odd(1) && !c.odd(2) && same_size(b, x) && a.r == (left ? b.r : b.c);
      const bool blocks = same_block(b, x) && a.mb == (left ? b.mb : b.nb);
      // blocks of B and C that are not square: refused according to the documentation, but harmless; neither does the distribution of empty matrices matter
      if (fit && (a.r == 0 || b.r == 0 || b.c == 0) && !blocks)
        return Unspecified;
      if (fit && blocks && !square_block(b))
        return Unspecified;
      if (fit && blocks && !left)
        return Unspecified;  // not implemented
      return when(fit && blocks);
    };
    es.push_back({std::string("hermitian_multiplication") + (left ? " left" : " right"), {false, false, false}, base, {}, ok,
                  [=](Args& x) { hermitian_multiplication<B, D, double>(side, left ? blas::Uplo::Lower : blas::Uplo::Upper, 1., x[0], x[1], 1., x[2]); },
                  left ? std::function<void(Args&)>([=](Args& x) { hermitian_multiplication<B, D, double>(*x.grid, side, blas::Uplo::Lower, 1., x[0], x[1], 1., x[2]); })
                       : std::function<void(Args&)>()});
  }
  // the sizes are only checked by heavy assertions
  auto gemm = [](const Call& c) {
    if (c.odd(0) || c.odd(1) || c.odd(2))
      return Reject;
    const Arg &a = c.a[0], &b = c.a[1], &x = c.a[2];
    return one_tile(a) && one_tile(b) && one_tile(x) && a.r == x.r && a.c == b.r && b.c == x.c && a.mb == x.mb && a.nb == b.mb && b.nb == x.nb ? Accept : Unspecified;
  };
  es.push_back({"generalMatrix", {false, false, false}, [](SizeType n) { return Call{{{n, 3, 2, 2}, {3, n, 2, 2}, {n, n, 2, 2}}, {}, false}; }, {}, gemm,
                [](Args& x) {
                  MatrixRef<const double, D> a(x[0]), b(x[1]);
                  MatrixRef<double, D> r(x[2]);
                  multiplication::internal::generalMatrix<B, D, double>(blas::Op::NoTrans, blas::Op::NoTrans, 1., a, b, 1., r);
                },
                [](Args& x) {
                  MatrixRef<const double, D> a(x[0]), b(x[1]);
                  MatrixRef<double, D> r(x[2]);
                  auto row = x.grid->row_communicator_pipeline();
                  auto col = x.grid->col_communicator_pipeline();
                  multiplication::internal::generalMatrix<B, D, double>(row, col, 1., a, b, 1., r);
                }});
  es.push_back({"reduction_to_band", {false}, [](SizeType n) { return Call{{{n, n, 2, 2}}, {2}, false}; }, {{-2, 0, 1, 3, 4}},
                [](const Call& c) { return when(std_square(c, 0) && c.i[0] >= 2 && c.a[0].mb % c.i[0] == 0); },
                [](Args& x) { eigensolver::internal::reduction_to_band<B, D, double>(x[0], x.i[0]); },
                [](Args& x) { eigensolver::internal::reduction_to_band<B, D, double>(*x.grid, x[0], x.i[0]); }});
  es.push_back({"band_to_tridiagonal", {false}, [](SizeType n) { return Call{{{n, n, 2, 2}}, {2}, false}; }, {{-2, 0, 1, 3, 4}},
                [](const Call& c) { return when(std_square(c, 0) && c.i[0] >= 2 && c.a[0].mb % c.i[0] == 0); },
                [](Args& x) { eigensolver::internal::band_to_tridiagonal<B, D, double>(blas::Uplo::Lower, x.i[0], x[0]); },
                [](Args& x) { eigensolver::internal::band_to_tridiagonal<B, D, double>(*x.grid, blas::Uplo::Lower, x.i[0], x[0]); }});
  auto bt = [](const Call& c) {
    const Arg &e = c.a[0], &h = c.a[1];
    return when(std_square(c, 1) && one_tile(e) && !c.odd(0) && e.r == h.r && e.mb == h.mb && c.i[0] >= 2 && h.mb % c.i[0] == 0);
  };
  es.push_back({"bt_band_to_tridiagonal", {false, false}, [](SizeType n) { return Call{{{n, 3, 2, 2}, {n, n, 2, 2, 1, 1, 0, Zeros}}, {2}, false}; }, {{-2, 0, 1, 3, 4}}, bt,
                [](Args& x) { MatrixRef<double, D> e(x[0]); eigensolver::internal::bt_band_to_tridiagonal<B, D, double>(x.i[0], e, x[1]); },
                [](Args& x) { MatrixRef<double, D> e(x[0]); eigensolver::internal::bt_band_to_tridiagonal<B, D, double>(*x.grid, x.i[0], e, x[1]); }});
  // C (N x M), V (N x N), taus: one block of 2 reflectors for N = 4
  auto btr = [](const Call& c) {
    const Arg &e = c.a[0], &v = c.a[1], &t = c.a[2];
    const bool ok = std_square(c, 1) && one_tile(e) && !c.odd(0) && e.r == v.r && e.mb == v.mb;
    if (!ok)
      return Reject;
    const SizeType refl = std::max<SizeType>(0, v.r - 2 - 1);
    if (t.c != 1 || t.nb != 1 || t.mb != v.mb || !one_tile(t) || c.odd(2) || t.r != refl)
      return Unspecified;
    return v.mb == 2 && e.nb == 2 ? Accept : Unspecified;
  };
  es.push_back({"bt_reduction_to_band", {false, false, true}, [](SizeType n) { return Call{{{n, 3, 2, 2}, {n, n, 2, 2, 1, 1, 0, Zeros}, {std::max<SizeType>(0, n - 3), 1, 2, 1, 1, 1, 0, Zeros}}, {}, false}; }, {}, btr,
                [](Args& x) { MatrixRef<double, D> e(x[0]); eigensolver::internal::bt_reduction_to_band<B, D, double>(2, e, x[1], x[2]); },
                [](Args& x) { MatrixRef<double, D> e(x[0]); eigensolver::internal::bt_reduction_to_band<B, D, double>(*x.grid, 2, e, x[1], x[2]); }});
  es.push_back({"tridiagonal_eigensolver", {true, true, false}, [](SizeType n) { return Call{{{n, 2, 2, 2}, {n, 1, 2, 1, 1, 1, 0, Zeros}, {n, n, 2, 2}}, {}, false}; }, {},
                [](const Call& c) {
                  const Arg &t = c.a[0], &l = c.a[1], &q = c.a[2];
                  const bool ok = std_square(c, 2) && !c.odd(0) && !c.odd(1) && one_tile(t) && one_tile(l) && t.r == q.r && l.r == q.r && t.c == 2 && l.c == 1 && t.mb == q.mb && l.mb == q.mb && t.nb == 2;
                  if (ok && l.nb != 1)
                    return Unspecified;
                  return when(ok);
                },
                [](Args& x) { eigensolver::internal::tridiagonal_eigensolver<B, D, double>(x[0], x[1], x[2]); },
                [](Args& x) { eigensolver::internal::tridiagonal_eigensolver<B, D, double>(*x.grid, x[0], x[1], x[2]); }});
  // eigensolvers: the range of eigenvalues is [0, i]
  auto range = [](const Call& c, const Arg& a) { return c.i[0] == 0 && c.i[1] >= 0 && c.i[1] <= a.r; };
  auto eig = [=](const Call& c, std::size_t nin) {
    const Arg &a = c.a[0], &l = c.a[nin], &q = c.a[nin + 1];
    bool ok = std_square(c, 0) && std_square(c, nin + 1) && same_size(a, q) && same_block(a, q) && !c.odd(nin) && one_tile(l) && l.r == q.r && l.c == 1 && l.mb == q.mb && range(c, a);
    if (nin == 2)
      ok = ok && std_square(c, 1) && same_size(a, c.a[1]) && same_block(a, c.a[1]);
    if (ok && l.nb != 1)
      return Unspecified;
    return when(ok);
  };
  auto base1 = [](SizeType n) { return Call{{{n, n, 2, 2}, {n, 1, 2, 1, 1, 1, 0, Zeros}, {n, n, 2, 2, 1, 1, 0, Zeros}}, {0, n}, false}; };
  auto base2 = [](SizeType n) { return Call{{{n, n, 2, 2}, {n, n, 2, 2}, {n, 1, 2, 1, 1, 1, 0, Zeros}, {n, n, 2, 2, 1, 1, 0, Zeros}}, {0, n}, false}; };
  const std::vector<std::vector<SizeType>> ints = {{-1, 1, 2}, {-1, 0, 1, 6}};
  const auto L = blas::Uplo::Lower;
  es.push_back({"hermitian_eigensolver", {false, true, false}, base1, ints, [=](const Call& c) { return eig(c, 1); },
                [=](Args& x) { hermitian_eigensolver<B, D, double>(L, x[0], x[1], x[2], x.i[0], x.i[1]); },
                [=](Args& x) { hermitian_eigensolver<B, D, double>(*x.grid, L, x[0], x[1], x[2], x.i[0], x.i[1]); }});
  es.push_back({"hermitian_eigensolver allocating", {false}, [](SizeType n) { return Call{{{n, n, 2, 2}}, {0, n}, false}; }, ints,
                [=](const Call& c) { return when(std_square(c, 0) && range(c, c.a[0])); },
                [=](Args& x) { auto r = hermitian_eigensolver<B, D, double>(L, x[0], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); },
                [=](Args& x) { auto r = hermitian_eigensolver<B, D, double>(*x.grid, L, x[0], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); }});
  auto two = [=](const Call& c) { return when(std_square(c, 0) && std_square(c, 1) && same_size(c.a[0], c.a[1]) && same_block(c.a[0], c.a[1]) && range(c, c.a[0])); };
  auto base2r = [](SizeType n) { return Call{{{n, n, 2, 2}, {n, n, 2, 2}}, {0, n}, false}; };
  es.push_back({"hermitian_generalized_eigensolver", {false, false, true, false}, base2, ints, [=](const Call& c) { return eig(c, 2); },
                [=](Args& x) { hermitian_generalized_eigensolver<B, D, double>(L, x[0], x[1], x[2], x[3], x.i[0], x.i[1]); },
                [=](Args& x) { hermitian_generalized_eigensolver<B, D, double>(*x.grid, L, x[0], x[1], x[2], x[3], x.i[0], x.i[1]); }});
  es.push_back({"hermitian_generalized_eigensolver_factorized", {false, false, true, false}, base2, ints, [=](const Call& c) { return eig(c, 2); },
                [=](Args& x) { hermitian_generalized_eigensolver_factorized<B, D, double>(L, x[0], x[1], x[2], x[3], x.i[0], x.i[1]); },
                [=](Args& x) { hermitian_generalized_eigensolver_factorized<B, D, double>(*x.grid, L, x[0], x[1], x[2], x[3], x.i[0], x.i[1]); }});
  es.push_back({"hermitian_generalized_eigensolver allocating", {false, false}, base2r, ints, two,
                [=](Args& x) { auto r = hermitian_generalized_eigensolver<B, D, double>(L, x[0], x[1], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); },
                [=](Args& x) { auto r = hermitian_generalized_eigensolver<B, D, double>(*x.grid, L, x[0], x[1], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); }});
  es.push_back({"hermitian_generalized_eigensolver_factorized allocating", {false, false}, base2r, ints, two,
                [=](Args& x) { auto r = hermitian_generalized_eigensolver_factorized<B, D, double>(L, x[0], x[1], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); },
                [=](Args& x) { auto r = hermitian_generalized_eigensolver_factorized<B, D, double>(*x.grid, L, x[0], x[1], x.i[0], x.i[1]); r.eigenvalues.waitLocalTiles(); }});
  // permutations of the tiles [i, j)
  auto perm = [](const Call& c) {
    const Arg &p = c.a[0], &a = c.a[1], &b = c.a[2];
    const SizeType nt = a.mb ? (a.r + a.mb - 1) / a.mb : 0;
    const bool ok = std_square(c, 1) && std_square(c, 2) && same_size(a, b) && same_block(a, b) && one_tile(p) && !c.odd(0) && p.r == a.r && p.c == 1 && p.mb == a.mb && c.i[0] >= 0 && c.i[0] <= c.i[1] && c.i[1] <= nt;
    if (!c.dist && a.grid == 1 && b.grid == 1)
      return Unspecified;  // the local part of a distributed matrix
    // values of the permutation are relative to the range
    return ok && c.i[0] != 0 ? Unspecified : when(ok);
  };
  auto basep = [](SizeType n) { return Call{{{n, 1, 2, 1, 1, 1, 0, Index}, {n, n, 2, 2}, {n, n, 2, 2}}, {0, n / 2}, false}; };
  es.push_back({"permute rows", {true, false, false}, basep, {{-1, 1, 3}, {-1, 0, 1, 3}}, perm,
                [=](Args& x) { permutations::permute<B, D, double, Coord::Row>(x.i[0], x.i[1], *x.p, x[0], x[1]); },
                [=](Args& x) { permutations::permute<B, D, double, Coord::Row>(*x.grid, x.i[0], x.i[1], *x.p, x[0], x[1]); }});
  es.push_back({"permute columns", {true, false, false}, basep, {{-1, 1, 3}, {-1, 0, 1, 3}}, perm,
                [=](Args& x) { permutations::permute<B, D, double, Coord::Col>(x.i[0], x.i[1], *x.p, x[0], x[1]); },
                [=](Args& x) { permutations::permute<B, D, double, Coord::Col>(*x.grid, x.i[0], x.i[1], *x.p, x[0], x[1]); }});
  es.push_back({"max_norm lower", {false}, one, {},
                [](const Call& c) {
                  if (one_tile(c.a[0]) && !c.odd(0) && (c.a[0].r == 0 || c.a[0].c == 0))
                    return square(c.a[0]) && square_block(c.a[0]) ? Accept : Unspecified;  // nothing to do
                  return when(std_square(c, 0));
                },
                std::function<void(Args&)>(),
                [=](Args& x) { tt::sync_wait(auxiliary::max_norm<B, D, double>(*x.grid, {0, 0}, blas::Uplo::Lower, x[0])); }});
  es.push_back({"max_norm general", {false}, [](SizeType n) { return Call{{{n, n, 2, 2}}, {}, false}; }, {}, [](const Call& c) { return when(one_tile(c.a[0]) && !c.odd(0)); },
                std::function<void(Args&)>(),
                [=](Args& x) { tt::sync_wait(auxiliary::max_norm<B, D, double>(*x.grid, {0, 0}, blas::Uplo::General, x[0])); }});
  // copies between matrices with the same distribution, and between different ones
  es.push_back({"copy to another distribution", {false, false}, [](SizeType n) { return Call{{{n, n, 2, 2}, {n, n, 2, 2}}, {}, false}; }, {},
                [](const Call& c) {
                  const Arg &a = c.a[0], &b = c.a[1];
                  return when(same_size(a, b) && one_tile(a) && one_tile(b) && !c.odd(0) && !c.odd(1) && std::max(a.mb, b.mb) % std::min(a.mb, b.mb) == 0 && std::max(a.nb, b.nb) % std::min(a.nb, b.nb) == 0);
                },
                std::function<void(Args&)>(),
                [](Args& x) { matrix::copy(static_cast<CMat&>(x[0]), x[1], *x.grid); }});
  return es;
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P36";
    s.rule = "a call whose arguments the documentation allows (it must work) or forbids (it must be refused at once)";
    for (const auto& e : entries())
      for (bool dist : {false, true})
        for (SizeType n : {4, 0}) {
          if (!(dist ? e.dist_call : e.local_call))
            continue;
          if (n == 0 && !thorough && e.base(n).a.size() > 2)
            continue;
          s.cases.push_back(vp::history_case(vp::fmt("%s%s n=%ld", e.name.c_str(), dist ? " distributed" : "", long(n)), [=] {
            tune(Tune{});
            run(e, dist, n);
          }));
        }
    s.samples = {"cholesky_factorization lower: [4x5 blocks 2x2] is refused, [5x5 blocks 2x2] is factorised",
                 "hermitian_eigensolver distributed: eigenvalues [4x1] stored on 2 ranks are refused before any task is submitted"};
    return s;
  });
}
