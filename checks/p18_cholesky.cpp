// P18: Cholesky factorization on every distribution and schedule
#include <dlaf/factorization/cholesky.h>

#include "algo.hpp"

using namespace algo;

// A = L L^H with L of small integers: the factor is computed exactly
template <class T>
static void cholesky(bool local, int gr, int gc, SizeType min_n, SizeType max_n, SizeType max_nb, int calls, bool variants) {
  const SizeType n = min_n + pick(int(max_n - min_n) + 1), nb = 1 + pick(int(max_nb));
  const int sr = pick(gr), sc = pick(gc);
  const auto uplo = pick(2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  const bool tiles = variants && pick(2);
  const auto order = variants && gr * gc > 1 && pick(2) ? common::Ordering::RowMajor : common::Ordering::ColumnMajor;
  vp::context(vp::fmt("%s %s, %ldx%ld in blocks of %ld on %s %dx%d from (%d,%d)%s%s", type_name<T>(), name(uplo), n, n, nb, local ? "local" : "grid", gr, gc, sr, sc, tiles ? ", tile layout" : "",
                      order == common::Ordering::RowMajor ? ", row-major" : ""));
  std::vector<Dense<T>> l, a;
  for (int c = 0; c < calls; ++c) {
    l.push_back(lower_factor<T>(n, c));
    a.push_back(l.back() * adj(l.back()));
    if (uplo == blas::Uplo::Upper)
      l.back() = adj(l.back());
  }
  on(local, gr, gc, [&](Place p) {
    std::vector<Matrix<T, Device::CPU>> mats;
    for (int c = 0; c < calls; ++c) {
      mats.push_back(p.make<T>(n, n, nb, nb, (sr + c) % gr, sc, tiles));
      fill(mats.back(), a[to_sizet(c)], uplo);
      if (local)
        cholesky_factorization<Backend::MC, Device::CPU, T>(uplo, mats.back());
      else
        cholesky_factorization<Backend::MC, Device::CPU, T>(*p.grid, uplo, mats.back());
    }
    for (int c = 0; c < calls; ++c)
      expect<T>(mats[to_sizet(c)], "factor", l[to_sizet(c)], uplo);
  }, 2, false, order);
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P18";
    s.rule = "all sizes, block sizes, source ranks, grids, grid orders, layouts and both triangles within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one (or two concurrent) factorizations, compared bit by bit with the exact factor";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, SizeType mn, SizeType n, SizeType nb, int calls, bool variants, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s, %s %dx%d, %ld to %ld, blocks up to %ld, %d calls, %d deviations", type_name<T>(), local ? "local" : "grid", r, c, mn, n, nb, calls, dev),
                              [=] { cholesky<T>(local, r, c, mn, n, nb, calls, variants); }, dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    const unsigned some = thorough ? unsigned(ALL_POLICIES) : unsigned(BASIC_POLICIES);
    const unsigned two = thorough ? unsigned(ALL_POLICIES) : LIFO_EAGER, one = thorough ? unsigned(BASIC_POLICIES) : JUST_LIFO;
    add(0., true, 1, 1, 0, 8 + t, 4, 1, true, 0, ALL_POLICIES, true);
    add(0., false, 1, 1, 0, 6 + t, 3, 1, true, 0, some, true);
    add(0., false, 2, 1, 0, 7 + t, 3, 1, true, 0, two, true);
    add(0., false, 1, 2, 0, 7 + t, 3, 1, true, 0, two, true);
    add(0., false, 2, 2, 0, 7 + t, 3, 1, true, 0, one, false);
    add(0., false, 3, 1, 4, 7, 2, 1, false, 0, one, false);
    add(0., false, 1, 3, 4, 7, 2, 1, false, 0, one, false);
    add(0., false, 3, 2, 4, 7, 1 + t, 1, false, 0, one, false);
    add(0., false, 2, 3, 4, 7, 1 + t, 1, false, 0, one, false);
    add(0., false, 2, 2, 2, 3, 1, 2, false, 0, two, true);
    add(0.f, false, 2, 2, 3, 4, 2, 1, false, 0, one, false);
    add(std::complex<float>{}, false, 2, 1, 0, 4, 2, 1, false, 0, one, false);
    add(std::complex<double>{}, false, 1, 2, 0, 4, 2, 1, false, 0, one, false);
    add(0.f, true, 1, 1, 0, 4, 2, 1, false, 0, LIFO_EAGER, true);
    add(std::complex<float>{}, true, 1, 1, 0, 4, 2, 1, false, 0, LIFO_EAGER, true);
    add(std::complex<double>{}, true, 1, 1, 0, 4, 2, 1, false, 0, LIFO_EAGER, true);
    // schedules
    add(0., true, 1, 1, 3, 3, 1, 1, false, 2, some, true);
    add(0., true, 1, 1, 4, 4, 1, 1, false, 1 + int(t), some, true);
    add(0., false, 2, 1, 3, 3, 1, 1, false, 1, thorough ? unsigned(ALL_POLICIES) : JUST_LIFO, true);
    add(0., false, 1, 2, 3, 3, 1, 1, false, 1, thorough ? unsigned(ALL_POLICIES) : JUST_LIFO, true);
    add(0., false, 2, 2, 3, 3, 1, 1, false, 1, LIFO_EAGER, true);
    if (thorough) {
      add(0., true, 1, 1, 3, 3, 1, 1, false, 3, BASIC_POLICIES, true);
      add(0., false, 2, 1, 3, 3, 1, 1, false, 2, LIFO_EAGER, true);
      add(0., false, 1, 2, 3, 3, 1, 1, false, 2, LIFO_EAGER, true);
      add(0., false, 2, 2, 4, 4, 1, 1, false, 1, LIFO_EAGER, true);
      add(0., false, 3, 3, 6, 8, 2, 1, false, 0, LIFO_EAGER, false);
    }
    return s;
  });
}
