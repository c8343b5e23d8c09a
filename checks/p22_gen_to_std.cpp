// P22: reduction of the generalized eigenproblem to standard form on every distribution and schedule
#include <dlaf/eigensolver/gen_to_std.h>

#include "algo.hpp"

using namespace algo;

struct Bound {
  SizeType min, max, max_nb;
  bool variants = false;
  bool fixed = false;
};

// A = L C L^H (or U^H C U) with small integers and powers of two on the diagonal of the factor: C is recovered exactly
template <class T>
static void reduce(bool local, int gr, int gc, Bound b) {
  const auto uplo = pick(2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  const SizeType n = b.min + pick(int(b.max - b.min) + 1), nb = 1 + pick(int(b.max_nb));
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const bool tiles = b.variants && pick(2);
  vp::context(vp::fmt("%s %s, %ldx%ld in blocks of %ld, %s %dx%d from (%d,%d)%s", type_name<T>(), name(uplo), n, n, nb, local ? "local" : "grid", gr, gc, sr, sc, tiles ? ", tile layout" : ""));
  const auto l = lower_factor<T>(n, 1), c = hermitian<T>(n, 2);
  const auto f = uplo == blas::Uplo::Lower ? l : adj(l);
  const auto a = l * c * adj(l);
  const auto sa = stored(a, uplo), sf = stored(f, uplo), want = stored(c, uplo);
  on(local, gr, gc, [&](Place p) {
    auto mat_a = p.make<T>(n, n, nb, nb, sr, sc, tiles), mat_b = p.make<T>(n, n, nb, nb, sr, sc);
    fill(mat_a, sa);
    fill(mat_b, sf);
    if (local)
      eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(uplo, mat_a, mat_b);
    else
      eigensolver::internal::generalized_to_standard<Backend::MC, Device::CPU, T>(*p.grid, uplo, mat_a, mat_b);
    expect<T>(mat_a, "transformed matrix", want);
    expect<T>(mat_b, "factor", sf);
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P22";
    s.rule = "both triangles, all sizes, block sizes, source ranks, grids and layouts within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one reduction, compared bit by bit with the exact result";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s, %s %dx%d, %ld to %ld, blocks up to %ld%s, %d deviations", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max, b.max_nb, b.fixed ? ", one source" : "", dev),
                              [=] { reduce<T>(local, r, c, b); }, dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    add(0., true, 1, 1, {0, 7 + t, 4, true}, 0, all, true);
    add(0., false, 1, 1, {0, 5 + t, 3, true}, 0, two, true);
    add(0., false, 2, 1, {0, 6 + 2 * t, 3}, 0, two, true);
    add(0., false, 1, 2, {0, 6 + 2 * t, 3}, 0, two, true);
    add(0., false, 2, 2, {0, 5 + 2 * t, 2, true}, 0, one, false);
    add(0., false, 3, 1, {4, 7, 2}, 0, one, false);
    add(0., false, 1, 3, {4, 7, 2}, 0, one, false);
    add(0., false, 3, 2, {4, 7, 1 + t}, 0, one, false);
    add(0., false, 2, 3, {4, 7, 1 + t}, 0, one, false);
    add(C{}, true, 1, 1, {0, 5, 2}, 0, two, true);
    add(C{}, false, 2, 2, {1, 4 + t, 2}, 0, one, false);
    add(0.f, true, 1, 1, {0, 4, 2}, 0, two, true);
    add(0.f, false, 2, 2, {1, 4, 2}, 0, one, false);
    add(Cf{}, true, 1, 1, {0, 3, 2}, 0, two, true);
    add(Cf{}, false, 2, 1, {1, 3, 2}, 0, one, false);
    add(Cf{}, false, 1, 2, {1, 3, 2}, 0, one, false);
    // schedules
    add(0., true, 1, 1, {3, 3 + t, 1}, 2, two, true);
    add(0., false, 2, 1, {3, 3, 1, false, !t}, 1, two, true);
    add(0., false, 1, 2, {3, 3, 1, false, !t}, 1, two, true);
    add(0., false, 2, 2, {3, 3, 1, false, !t}, 1, JUST_LIFO, true);
    if (thorough) {
      add(0., false, 2, 1, {2, 2, 1, false, true}, 2, LIFO_EAGER, true);
      add(0., false, 1, 2, {2, 2, 1, false, true}, 2, LIFO_EAGER, true);
      add(0., false, 2, 2, {4, 4, 1, false, true}, 1, LIFO_EAGER, true);
      add(0., false, 3, 3, {6, 8, 2, false, true}, 0, LIFO_EAGER, false);
    }
    return s;
  });
}
