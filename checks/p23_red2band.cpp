// P23: reduction to band form and its back-transformation on every distribution, band size, worker count and schedule
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/reduction_to_band.h>

#include "algo.hpp"

using namespace algo;

struct Bound {
  SizeType min, max;
  std::vector<std::pair<SizeType, SizeType>> sizes;  // block and band size
  int values = 4;
  bool fixed = false;  // source rank
  int workers = 1;
  int pool = 0;  // number of worker threads, if limited
};

// Inputs, among them those which need no reflectors at all
template <class T>
static Dense<T> input(int kind, SizeType n, SizeType band) {
  const auto a = hermitian<T>(n, 1);
  switch (kind) {
    case 0:
      return a;
    case 1:  // already of band form
      return Dense<T>(n, n, [&](SizeType i, SizeType j) { return std::abs(i - j) <= band ? a(i, j) : T(0); });
    case 2:  // some of the columns have nothing to eliminate
      return Dense<T>(n, n, [&](SizeType i, SizeType j) { return std::abs(i - j) > band - 1 && (i + j) % 2 ? T(0) : a(i, j); });
    case 3:  // diagonal
      return Dense<T>(n, n, [&](SizeType i, SizeType j) { return i == j ? a(i, j) : T(0); });
    default:  // the first element of the reflected vectors vanishes
      return Dense<T>(n, n, [&](SizeType i, SizeType j) { return std::abs(i - j) == band ? T(0) : a(i, j); });
  }
}

// The vector of reflector j, as stored below the band
template <class T>
static std::vector<std::complex<long double>> reflector(const Dense<T>& a, SizeType band, SizeType j) {
  std::vector<std::complex<long double>> v(to_sizet(a.m));
  v[to_sizet(j + band)] = 1;
  for (SizeType i = j + band + 1; i < a.m; ++i)
    v[to_sizet(i)] = {(long double) std::real(a(i, j)), (long double) std::imag(a(i, j))};
  return v;
}
template <class T>
static DenseW transformation(const Dense<T>& a, const Dense<T>& taus, SizeType band) {
  auto q = identity(a.m);
  for (SizeType j = 0; j < taus.m; ++j)
    q = q * householder(reflector(a, band, j), {(long double) std::real(taus(j, 0)), (long double) std::imag(taus(j, 0))});
  return q;
}

template <class T>
static void reduce(bool local, int gr, int gc, Bound b) {
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const auto [nb, band] = b.sizes[to_sizet(pick(int(b.sizes.size())))];
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const int kind = n < 3 ? 0 : pick(b.values + 1);
  const auto text = vp::fmt("reduction of %s, input %d, %ldx%ld in blocks of %ld to band %ld, %s %dx%d from (%d,%d), %d workers", type_name<T>(), kind, n, n, nb, band, local ? "local" : "grid", gr, gc, sr, sc, b.workers);
  vp::context(text);
  const auto a = input<T>(kind, n, band);
  const SizeType nrefl = std::max<SizeType>(0, n - band - 1);
  Dense<T> out(n, n), taus(nrefl, 1);
  std::vector<Dense<T>> row_taus(to_sizet(gr), taus);
  on(local, gr, gc, [&](Place p) {
    tune({std::size_t(b.workers), std::size_t(b.workers)});
    auto mat = p.make<T>(n, n, nb, nb, sr, sc);
    // tiles above the diagonal are not used
    fill(mat, [&a, nb = nb](SizeType i, SizeType j) { return i / nb >= j / nb ? (i >= j ? a(i, j) : num<T>(77, 77)) : untouched<T>(i, j); });
    auto mat_taus = local ? eigensolver::internal::reduction_to_band<Backend::MC>(mat, band) : eigensolver::internal::reduction_to_band<Backend::MC>(*p.grid, mat, band);
    VP_CHECK(mat_taus.size() == GlobalElementSize(nrefl, 1) && mat_taus.blockSize().rows() == nb, "the scalars are of the wrong size");
    collect<T>(mat, out);
    collect<T>(mat_taus, row_taus[local ? 0 : to_sizet(p.grid->rank().row())]);
  }, b.pool ? b.pool : 1 + b.workers, b.pool > 0);
  for (int r = 1; r < gr; ++r)
    VP_CHECK(row_taus[to_sizet(r)].v == row_taus[0].v, "the rows of the grid got different scalars");
  taus = row_taus[0];
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < j / nb * nb; ++i)
      VP_CHECK(out(i, j) == untouched<T>(i, j), "element (%ld,%ld) above the diagonal tiles changed", i, j);
  const auto q = transformation(out, taus, band);
  const auto w = wide(out);
  const DenseW bandm(n, n, [&](SizeType i, SizeType j) -> std::complex<long double> {
    return std::abs(i - j) > band ? 0 : i >= j ? w(i, j) : std::conj(w(j, i));
  });
  const long double eps = std::numeric_limits<BaseType<T>>::epsilon() * 30.0L * (n + 1);
  const auto d1 = difference(adj(q) * q, identity(n));
  VP_CHECK(d1 <= eps, "the transformation is not unitary (%Lg)", d1);
  const auto d2 = difference(q * bandm * adj(q), wide(a));
  VP_CHECK(d2 <= eps * 10 * (1 + max_abs(wide(a))), "the band matrix is not similar to the input (%Lg)", d2);
  vp::outcome(vp::hash_bytes(text.data(), text.size()), hash(taus, hash(out)));
}

// The back-transformation with integer reflectors (which need not be unitary)
template <class T>
static void back(bool local, int gr, int gc, Bound b, SizeType max_cols) {
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const auto [nb, band] = b.sizes[to_sizet(pick(int(b.sizes.size())))];
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const SizeType cols = pick(int(max_cols) + 1), first = pick(int(max_cols - cols) + 1);
  const int kind = pick(4);
  const int cc = b.fixed ? 0 : pick(gc);
  const auto text = vp::fmt("back-transformation of %s, scalars %d, %ldx%ld in blocks of %ld, band %ld, columns %ld to %ld, %s %dx%d from (%d,%d) and (%d,%d), %d workers", type_name<T>(), kind, n, n, nb, band, first, first + cols,
                            local ? "local" : "grid", gr, gc, sr, sc, sr, cc, b.workers);
  vp::context(text);
  const SizeType nrefl = std::max<SizeType>(0, n - band - 1);
  const Dense<T> v(n, n, [](SizeType i, SizeType j) { return num<T>(int(2 * i + 3 * j + i * j) % 3 - 1, int(i + j) % 3 - 1); });
  const Dense<T> taus(nrefl, 1, [&](SizeType i, SizeType) { return kind == 0 ? num<T>(1, i % 2) : kind == 1 ? T(i % 2 ? 0 : 2) : kind == 2 ? T(0) : num<T>(i % 3 - 1, 1); });
  const auto c = general<T>(n, max_cols, 3);
  // Q C
  auto want = c;
  for (SizeType j = nrefl - 1; j >= 0; --j)
    for (SizeType k = first; k < first + cols; ++k) {
      T s = want(j + band, k);
      for (SizeType i = j + band + 1; i < n; ++i)
        s += algo::conj(v(i, j)) * want(i, k);
      s *= taus(j, 0);
      want(j + band, k) -= s;
      for (SizeType i = j + band + 1; i < n; ++i)
        want(i, k) -= v(i, j) * s;
    }
  on(local, gr, gc, [&](Place p) {
    tune({std::size_t(b.workers), std::size_t(b.workers)});
    auto mat_v = p.make<T>(n, n, nb, nb, sr, sc);
    auto mat_c = p.make<T>(n, max_cols, nb, nb, sr, cc);
    const int pc = local ? 0 : p.grid->rank().col();
    Matrix<T, Device::CPU> mat_taus(Distribution({nrefl, 1}, {nb, 1}, {local ? 1 : gc, 1}, {pc, 0}, {sc, 0}));
    fill(mat_v, v);
    fill(mat_c, c);
    fill(mat_taus, taus);
    {
      matrix::internal::MatrixRef<T, Device::CPU> ref(mat_c, {{0, first}, {n, cols}});
      if (local)
        eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(band, ref, mat_v, mat_taus);
      else
        eigensolver::internal::bt_reduction_to_band<Backend::MC, Device::CPU, T>(*p.grid, band, ref, mat_v, mat_taus);
    }
    expect<T>(mat_c, "result", want);
    expect<T>(mat_v, "reflectors", v);
    expect<T>(mat_taus, "scalars", taus);
  }, b.pool ? b.pool : 1 + b.workers, b.pool > 0);
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P23";
    s.rule = "all sizes, block and band sizes, source ranks, grids, inputs and worker counts within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one reduction (unitary similarity checked in extended precision) or back-transformation (compared bit by bit with integer reflectors)";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, SizeType cols, int dev, unsigned pol, bool hb, int which = 3) {
      using T = decltype(zero);
      for (int w = 1; w <= 2; ++w) {
        if (!(which & w))
          continue;
        auto k = vp::sched_case(vp::fmt("%s, %s, %s %dx%d, %ld to %ld, %d sizes, %d workers%s%s, %d deviations", w == 1 ? "reduction" : "back-transformation", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max, int(b.sizes.size()), b.workers,
                                        b.fixed ? ", one source" : "", b.pool ? vp::fmt(", pool of %d", b.pool).c_str() : "", dev),
                                [=] {
                                  if (w == 1)
                                    reduce<T>(local, r, c, b);
                                  else
                                    back<T>(local, r, c, b, cols);
                                },
                                dev, pol, !local, hb);
        k.split = 12;
        s.cases.push_back(k);
      }
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    const std::vector<std::pair<SizeType, SizeType>> sizes = {{2, 2}, {3, 3}, {4, 2}, {4, 4}, {6, 2}, {6, 3}}, few = {{2, 2}, {3, 3}, {4, 2}};
    const std::vector<std::pair<SizeType, SizeType>> one2 = {{2, 2}}, two2 = {{2, 2}, {4, 2}};
    add(0., true, 1, 1, {0, 9 + t, sizes}, 3, 0, two, true);
    add(0., true, 1, 1, {3, 9 + t, few, 4, true, 2}, 3, 0, two, true);
    add(0., true, 1, 1, {5, 9 + t, few, 4, true, 3}, 2, 0, one, true);
    add(0., false, 1, 1, {0, 7 + t, few}, 2, 0, one, true);
    add(0., false, 2, 1, {0, 8 + 2 * t, few}, 2, 0, one, true);
    add(0., false, 1, 2, {0, 8 + 2 * t, few}, 2, 0, one, true);
    add(0., false, 2, 2, {3, 8 + 2 * t, few, 1}, 2, 0, one, false);
    add(0., false, 3, 1, {6, 10, few, 1}, 2, 0, one, false);
    add(0., false, 1, 3, {6, 10, few, 1}, 2, 0, one, false);
    add(0., false, 3, 2, {8, 10, few, 0, !t}, 1, 0, one, false);
    add(0., false, 2, 3, {8, 10, few, 0, !t}, 1, 0, one, false);
    add(0., false, 2, 1, {6, 9 + t, few, 1, true, 2}, 2, 0, one, true);
    add(0., false, 2, 2, {7, 9 + t, few, 1, true, 3}, 2, 0, one, true);
    add(C{}, true, 1, 1, {0, 8 + t, sizes}, 2, 0, one, true);
    add(C{}, false, 2, 2, {3, 8 + t, few, 1}, 1, 0, one, false);
    add(0.f, true, 1, 1, {0, 7, few}, 2, 0, one, true);
    add(0.f, false, 2, 2, {5, 7, few, 1, true}, 1, 0, one, false);
    add(Cf{}, true, 1, 1, {0, 7, few}, 2, 0, one, true);
    add(Cf{}, false, 2, 2, {5, 7, few, 1, true}, 1, 0, one, false);
    // as few worker threads as possible: the panel occupies one with blocking communication
    add(0., false, 2, 1, {5, 9, few, 0, false, 1, 1}, 1, 0, all, false);
    add(0., false, 3, 1, {7, 9, few, 0, false, 1, 1}, 1, 0, two, false);
    add(0., false, 2, 2, {5, 9, few, 0, false, 1, 1}, 1, 0, two, false);
    add(0., false, 2, 2, {7, 9, few, 0, true, 2, 3}, 1, 0, two, false);
    // schedules
    add(0., true, 1, 1, {6, 6 + t, two2, 0, true}, 1, 1, two, true);
    add(0., true, 1, 1, {6, 6 + t, one2, 0, true, 2}, 1, 1, two, true);
    add(0., false, 2, 1, {5 + t, 5 + t, one2, 0, true}, 1, 1, two, true);
    add(0., false, 1, 2, {5 + t, 5 + t, one2, 0, true}, 1, 1, two, true);
    add(0., false, 2, 2, {5 + t, 5 + t, one2, 0, true}, 1, 1, JUST_LIFO, true);
    add(0., false, 2, 1, {5 + t, 5 + t, one2, 0, true, 1, 1}, 1, 1, two, false);
    if (thorough) {
      add(0., true, 1, 1, {6, 6, one2, 0, true, 2}, 1, 2, JUST_LIFO, true);
      add(0., false, 2, 1, {5, 5, one2, 0, true, 1, 1}, 1, 2, JUST_LIFO, false);
      add(0., false, 3, 3, {9, 12, two2, 0, true}, 1, 0, LIFO_EAGER, false);
    }
    return s;
  });
}
