// P19: triangular solver for all options, distributions and schedules
#include <dlaf/solver/triangular.h>

#include "algo.hpp"

using namespace algo;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;

struct Bound {
  SizeType max_m, max_n, max_nb;
  bool sub;       // the right-hand side is a part of a matrix
  bool variants;  // layouts, orders
  SizeType min = 0;
  bool fixed = false;  // one choice of source ranks
};

// B = op(A) X / alpha with small integers and powers of two on the diagonal of A: the solution is computed exactly
template <class T>
static void solve(bool local, int gr, int gc, Bound b) {
  const auto side = pick(2) ? blas::Side::Left : blas::Side::Right;
  const auto uplo = pick(2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  const auto op = std::array{blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans}[to_sizet(pick(isComplex_v<T> ? 3 : 2))];
  const auto diag = pick(2) ? blas::Diag::NonUnit : blas::Diag::Unit;
  const SizeType m = b.min + pick(int(b.max_m - b.min) + 1), n = b.min + pick(int(b.max_n - b.min) + 1);
  const SizeType mb = 1 + pick(int(b.max_nb)), nb = 1 + pick(int(b.max_nb));
  const bool left = side == blas::Side::Left;
  // the source ranks along the dimension that is shared have to agree
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc), other = b.fixed ? (left ? gc - 1 : 0) : left ? pick(gc) : pick(gr);
  const bool tiles = b.variants && pick(2);
  // as a part of a matrix the right-hand side starts at a tile boundary in the dimension it shares with the triangular matrix
  const SizeType om = b.sub ? (left ? mb * pick(2) : pick(int(2 * mb))) : 0, on_ = b.sub ? (left ? pick(int(2 * nb)) : nb * pick(2)) : 0;
  const SizeType em = b.sub ? pick(2) : 0, en = b.sub ? 1 - em : 0;
  const T alpha = T((m + n + mb) % 2 ? 2 : -1);
  const SizeType na = left ? m : n, ba = left ? mb : nb;
  vp::context(vp::fmt("%s %s %s %s %s, %ldx%ld in blocks of %ldx%ld at (%ld,%ld), %s %dx%d, source (%d,%d), other source %d%s", type_name<T>(), name(side), name(uplo), name(op), name(diag), m, n, mb, nb, om, on_,
                      local ? "local" : "grid", gr, gc, sr, sc, other, tiles ? ", tile layout" : ""));
  const auto a = triangular<T>(na, uplo, diag, 1);
  const auto x = general<T>(m, n, 2);
  const auto rhs = (T(1) / alpha) * (left ? apply(op, a) * x : x * apply(op, a));
  const auto sa = stored(a, uplo, diag);
  const SizeType M = om + m + em, N = on_ + n + en;
  auto whole = [&](const Dense<T>& part) {
    return Dense<T>(M, N, [&](SizeType i, SizeType j) { return i >= om && i < om + m && j >= on_ && j < on_ + n ? part(i - om, j - on_) : untouched<T>(i, j); });
  };
  on(local, gr, gc, [&](Place p) {
    // where the shared dimension of the right-hand side starts
    const int ra = int((sr + om / mb) % gr), ca = int((sc + on_ / nb) % gc);
    auto mat_a = left ? p.make<T>(na, na, ba, ba, ra, other) : p.make<T>(na, na, ba, ba, other, ca);
    auto mat_b = p.make<T>(M, N, mb, nb, sr, sc, tiles);
    fill(mat_a, sa);
    fill(mat_b, whole(rhs));
    if (b.sub) {
      MatrixRef<T, Device::CPU> ref(mat_b, SubMatrixSpec{{om, on_}, {m, n}});
      if (local)
        solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, mat_a, ref);
      else
        solver::internal::triangular_solver<Backend::MC, Device::CPU, T>(*p.grid, side, uplo, op, diag, alpha, mat_a, ref);
    }
    else if (local)
      triangular_solver<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, mat_a, mat_b);
    else
      triangular_solver<Backend::MC, Device::CPU, T>(*p.grid, side, uplo, op, diag, alpha, mat_a, mat_b);
    expect<T>(mat_b, "solution", whole(x));
    expect<T>(mat_a, "triangular matrix", sa);
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P19";
    s.rule = "all sides, triangles, transpositions, diagonals, sizes, block sizes, source ranks, grids, layouts and sub-matrices as right-hand side within the bound, for all element types, under both MPI behaviours and "
             "all schedules within the deviation bound; non-trivial: one solve, compared bit by bit with the exact solution";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s, %s %dx%d, from %ld up to %ldx%ld, blocks up to %ld%s, %d deviations", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max_m, b.max_n, b.max_nb, b.sub ? ", part" : "", dev),
                              [=] { solve<T>(local, r, c, b); }, dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    using C = std::complex<double>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    add(0., true, 1, 1, {4 + t, 4 + t, 3, false, true}, 0, two, true);
    add(0., true, 1, 1, {3, 3, 2, true, false}, 0, one, true);
    add(0., false, 1, 1, {3, 3, 2, false, false}, 0, one, true);
    add(0., false, 2, 1, {4 + t, 3 + t, 2, false, false}, 0, one, true);
    add(0., false, 1, 2, {3 + t, 4 + t, 2, false, false}, 0, one, true);
    add(0., false, 2, 2, {4 + t, 3 + t, 1 + t, false, false}, 0, one, false);
    add(0., false, 3, 1, {4, 4, 1, false, false, 4}, 0, one, true);
    add(0., false, 1, 3, {4, 4, 1, false, false, 4}, 0, one, true);
    add(0., false, 2, 3, {4, 4, 1, false, false, 3 + (1 - t)}, 0, one, false);
    add(0., false, 3, 2, {4, 4, 1, false, false, 3 + (1 - t)}, 0, one, false);
    add(0., false, 2, 1, {3, 2, 2, true, false, 1}, 0, one, false);
    add(0., false, 1, 2, {2, 3, 2, true, false, 1}, 0, one, false);
    add(0., false, 2, 2, {3, 3, 1 + t, true, false, 2 - t}, 0, JUST_LIFO, false);
    add(C{}, true, 1, 1, {3, 3, 2, false, false}, 0, one, true);
    add(C{}, false, 2, 2, {3, 3, 1 + t, false, false, 1}, 0, one, false);
    add(0.f, true, 1, 1, {3, 3, 2, false, false, 2}, 0, one, true);
    add(0.f, false, 2, 1, {3, 3, 2, false, false, 2}, 0, one, false);
    add(std::complex<float>{}, true, 1, 1, {3, 3, 2, false, false, 2}, 0, one, true);
    add(std::complex<float>{}, false, 1, 2, {3, 3, 2, false, false, 2}, 0, one, false);
    // schedules
    add(0., true, 1, 1, {3, 2, 1, false, false, 2}, 1, LIFO_EAGER, true);
    add(0., false, 2, 1, {2, 2, 1, false, false, 2, !t}, 1, thorough ? all : JUST_LIFO, true);
    add(0., false, 1, 2, {2, 2, 1, false, false, 2, !t}, 1, thorough ? all : JUST_LIFO, true);
    add(0., false, 2, 2, {2, 2, 1, false, false, 2, !t}, 1, thorough ? basic : JUST_LIFO, false);
    if (thorough) {
      add(0., true, 1, 1, {3, 3, 1, false, false, 3}, 2, LIFO_EAGER, true);
      add(0., false, 2, 1, {3, 1, 1, false, false, 1}, 1, LIFO_EAGER, true);
      add(0., false, 1, 2, {1, 3, 1, false, false, 1}, 1, LIFO_EAGER, true);
      add(0., false, 2, 2, {3, 3, 1, false, false, 3}, 1, JUST_LIFO, false);
    }
    return s;
  });
}
