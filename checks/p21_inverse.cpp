// P21: triangular inverse and inverse from a Cholesky factor on every distribution and schedule
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>

#include "algo.hpp"

using namespace algo;

struct Bound {
  SizeType min, max, max_nb;
  bool variants = false;
  bool fixed = false;
  int max_tiles = 1;  // per block and dimension
};

// The inverse of a triangular matrix whose diagonal consists of powers of two: no rounding
template <class T>
static Dense<T> inverse_of(const Dense<T>& a, blas::Uplo uplo) {
  const SizeType n = a.m;
  Dense<T> x(n, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType k = 0; k < n; ++k) {
      const SizeType i = uplo == blas::Uplo::Lower ? k : n - 1 - k;
      T s = i == j ? T(1) : T(0);
      for (SizeType l = 0; l < n; ++l)
        if (l != i)
          s -= a(i, l) * x(l, j);
      x(i, j) = s / a(i, i);
    }
  return x;
}

template <class T>
static void invert(bool cholesky, bool local, int gr, int gc, Bound b) {
  const auto uplo = pick(2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  const auto diag = !cholesky && pick(2) ? blas::Diag::Unit : blas::Diag::NonUnit;
  const SizeType n = b.min + pick(int(b.max - b.min) + 1), nb = 1 + pick(int(b.max_nb));
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const bool tiles = b.variants && pick(2);
  // blocks may consist of many tiles, and need not be square
  const SizeType tr = b.max_tiles > 1 ? 1 + pick(int(b.max_tiles)) : 1, tc = b.max_tiles > 1 ? 1 + pick(int(b.max_tiles)) : 1;
  vp::context(vp::fmt("%s %s %s %s, %ldx%ld in tiles of %ld, blocks of %ldx%ld tiles, %s %dx%d from (%d,%d)%s", cholesky ? "inverse from factor" : "inverse", type_name<T>(), name(uplo), name(diag), n, n, nb, tr, tc, local ? "local" : "grid", gr, gc, sr, sc,
                      tiles ? ", tile layout" : ""));
  auto a = cholesky ? lower_factor<T>(n, 1) : triangular<T>(n, uplo, diag, 1);
  if (cholesky && uplo == blas::Uplo::Upper)
    a = adj(a);
  auto x = inverse_of(a, uplo);
  if (cholesky)
    x = uplo == blas::Uplo::Lower ? adj(x) * x : x * adj(x);
  const auto sa = stored(a, uplo, diag), want = stored(x, uplo, diag);
  on(local, gr, gc, [&](Place p) {
    auto mat = p.make<T>(n, n, nb, nb, sr, sc, tiles, tr, tc);
    fill(mat, sa);
    if (cholesky) {
      if (local)
        inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(uplo, mat);
      else
        inverse_from_cholesky_factor<Backend::MC, Device::CPU, T>(*p.grid, uplo, mat);
    }
    else {
      if (local)
        triangular_inverse<Backend::MC, Device::CPU, T>(uplo, diag, mat);
      else
        triangular_inverse<Backend::MC, Device::CPU, T>(*p.grid, uplo, diag, mat);
    }
    expect<T>(mat, "inverse", want);
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P21";
    s.rule = "all triangles, diagonals, sizes, block sizes, source ranks, grids and layouts within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one inversion, compared bit by bit with the exact inverse";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      for (const bool cholesky : {false, true}) {
        auto k = vp::sched_case(vp::fmt("%s, %s, %s %dx%d, %ld to %ld, blocks up to %ld%s, %d deviations", cholesky ? "cholesky" : "triangular", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max, b.max_nb,
                                        b.fixed ? ", one source" : "", dev),
                                [=] { invert<T>(cholesky, local, r, c, b); }, dev, pol, !local, hb);
        k.split = 12;
        s.cases.push_back(k);
      }
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    add(0., true, 1, 1, {0, 7 + t, 4, true}, 0, all, true);
    add(0., false, 1, 1, {0, 5 + t, 3, true}, 0, two, true);
    add(0., false, 2, 1, {0, 6 + 2 * t, 3}, 0, two, true);
    add(0., false, 1, 2, {0, 6 + 2 * t, 3}, 0, two, true);
    add(0., false, 2, 2, {0, 5 + 2 * t, 2, true}, 0, one, false);
    add(0., false, 3, 1, {4, 7, 2}, 0, one, false);
    add(0., false, 1, 3, {4, 7, 2}, 0, one, false);
    add(0., false, 3, 2, {4, 7, 1 + t}, 0, one, false);
    add(0., false, 2, 3, {4, 7, 1 + t}, 0, one, false);
    add(C{}, true, 1, 1, {0, 5, 2}, 0, two, true);
    add(C{}, false, 2, 2, {1, 4 + t, 2}, 0, one, false);
    add(0.f, true, 1, 1, {0, 4, 2}, 0, two, true);
    add(0.f, false, 2, 2, {1, 4, 2}, 0, one, false);
    add(Cf{}, true, 1, 1, {0, 3, 2}, 0, two, true);
    add(Cf{}, false, 2, 1, {1, 3, 2}, 0, one, false);
    add(Cf{}, false, 1, 2, {1, 3, 2}, 0, one, false);
    // more than one tile per block (the distributed version refuses them)
    add(0., true, 1, 1, {4, 6, 2, false, true, 3}, 0, two, false);
    // schedules
    add(0., true, 1, 1, {3, 3 + t, 1}, 2, two, true);
    add(0., false, 2, 1, {3, 3, 1, false, !t}, 1, two, true);
    add(0., false, 1, 2, {3, 3, 1, false, !t}, 1, two, true);
    add(0., false, 2, 2, {3, 3, 1, false, !t}, 1, JUST_LIFO, true);
    if (thorough) {
      add(0., false, 2, 1, {2, 2, 1, false, true}, 2, LIFO_EAGER, true);
      add(0., false, 1, 2, {2, 2, 1, false, true}, 2, LIFO_EAGER, true);
      add(0., false, 2, 2, {4, 4, 1, false, true}, 1, LIFO_EAGER, true);
      add(0., false, 3, 3, {6, 8, 2, false, true}, 0, LIFO_EAGER, false);
    }
    return s;
  });
}
