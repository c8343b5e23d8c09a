// P26: the eigensolvers return the requested eigenpairs for every size, tile size, band, range, grid, source rank and schedule
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/factorization/cholesky.h>

#include "eigen.hpp"

using namespace algo;

struct Bound {
  SizeType min, max;
  std::vector<SizeType> blocks, bands = {2};
  std::vector<int> kinds = {0};
  bool gen = false;
  bool all_ranges = true;   // every range of the spectrum, or all of it and half of it
  bool sources = true;      // every source rank of the matrices, or the last one
  bool returned = false;    // both the interface that fills matrices and the one that returns them
  int threads = 2;
  bool limited = false;
  std::size_t workers = 1;
};
constexpr int kinds = 8;

template <class T>
static Dense<T> input(int kind, SizeType n) {
  switch (kind) {
    case 0:
      return hermitian<T>(n, 1);
    case 1:  // zero
      return Dense<T>(n, n);
    case 2:  // one eigenvalue
      return Dense<T>(n, n, [](SizeType i, SizeType j) { return i == j ? T(2) : T(0); });
    case 3:  // rank 1: all eigenvalues but one are zero
      return Dense<T>(n, n, [](SizeType i, SizeType j) { return num<T>(int(i % 2) * 2 - 1, i % 3) * algo::conj(num<T>(int(j % 2) * 2 - 1, j % 3)); });
    case 4:  // diagonal, descending
      return Dense<T>(n, n, [n](SizeType i, SizeType j) { return i == j ? T(n - 2 * i) : T(0); });
    case 5:  // anti-diagonal: eigenvalues +-1
      return Dense<T>(n, n, [n](SizeType i, SizeType j) { return i + j == n - 1 ? (i == j ? T(1) : i > j ? num<T>(0.6, 0.8) * T(isComplex_v<T> ? 1. : 1 / 0.6) : num<T>(0.6, -0.8) * T(isComplex_v<T> ? 1. : 1 / 0.6)) : T(0); });
    case 6: {  // small norm
      auto a = hermitian<T>(n, 2);
      return T(std::ldexp(BaseType<T>(1), sizeof(BaseType<T>) == 4 ? -18 : -90)) * a;
    }
    default: {  // blocks that are not coupled
      auto a = hermitian<T>(n, 3);
      return Dense<T>(n, n, [&](SizeType i, SizeType j) { return i / 3 == j / 3 ? a(i, j) : T(0); });
    }
  }
}

template <class T>
static void solve(bool local, int gr, int gc, Bound b) {
  using R = BaseType<T>;
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const SizeType nb = b.blocks[to_sizet(pick(int(b.blocks.size())))];
  const SizeType min_band = b.bands[to_sizet(pick(int(b.bands.size())))];
  if (min_band > nb && min_band != b.bands[0])
    return;
  const int kind = b.kinds[to_sizet(pick(int(b.kinds.size())))];
  const SizeType end = b.all_ranges ? n - pick(int(n) + 1) : n - pick(2) * (n / 2);
  const int sr = b.sources ? pick(gr) : gr - 1, sc = b.sources ? pick(gc) : gc - 1;
  const int form = b.returned ? pick(2) : 0, factorized = b.gen ? pick(2) : 0;
  const bool whole = end == n && (n + nb) % 2;  // through the interface without a range
  const std::string text = vp::fmt("%s%s eigensolver of %s, matrix %d of size %ld in blocks of %ld, band from %ld, eigenpairs 0 to %ld, %s %dx%d from (%d,%d), %s, %d threads, %d workers", b.gen ? "generalized" : "standard",
                                   factorized ? " factorized" : "", type_name<T>(), kind, n, nb, min_band, end, local ? "local" : "grid", gr, gc, sr, sc, form ? "returned" : "filled", b.threads, int(b.workers));
  vp::context(text);
  const auto a = input<T>(kind, n);
  const auto l = lower_factor<T>(n, 1);
  const auto bb = b.gen ? l * adj(l) : Dense<T>();
  Dense<T> q(n, n);
  std::vector<Dense<R>> vals(to_sizet(gr * gc), Dense<R>(n, 1));
  on(local, gr, gc, [&](Place p) {
    Tune t;
    t.panel = t.tfactor = t.rank1 = b.workers;
    t.min_band = min_band;
    tune(t);
    constexpr auto B = Backend::MC;
    constexpr auto D = Device::CPU;
    constexpr auto lower = blas::Uplo::Lower;
    auto ma = p.make<T>(n, n, nb, nb, sr, sc);
    fill(ma, a, lower);
    auto run = [&](auto std_fill, auto std_ret, auto gen_fill, auto gen_ret, auto fac_fill, auto fac_ret) {
      auto done = [&](Matrix<R, D>& ev, Matrix<T, D>& ez) {
        collect<R>(ev, vals[local ? 0 : to_sizet(p.grid->rankFullCommunicator(p.grid->rank()))]);
        collect<T>(ez, q);
      };
      auto both = [&](auto& f, auto& r, auto&... mats) {
        if (form) {
          auto res = r(mats...);
          done(res.eigenvalues, res.eigenvectors);
        }
        else {
          Matrix<R, D> evals(LocalElementSize(n, 1), TileElementSize(nb, 1));
          auto evecs = p.make<T>(n, n, nb, nb, sr, sc);
          fill(evals, [](SizeType, SizeType) { return std::numeric_limits<R>::quiet_NaN(); });
          fill(evecs, [](SizeType, SizeType) { return T(std::numeric_limits<R>::quiet_NaN()); });
          f(mats..., evals, evecs);
          done(evals, evecs);
        }
      };
      if (b.gen) {
        auto mb = p.make<T>(n, n, nb, nb, sr, sc);
        fill(mb, factorized ? l : bb, lower);
        if (factorized)
          both(fac_fill, fac_ret, ma, mb);
        else
          both(gen_fill, gen_ret, ma, mb);
        if (factorized) {  // the factor is only read
          expect<T>(mb, "factor", l, lower);
        }
      }
      else
        both(std_fill, std_ret, ma);
    };
#define ALL(G)                                                                                                                                          \
  run([&](auto& x, auto& v, auto& z) { whole ? hermitian_eigensolver<B, D, T>(G lower, x, v, z) : hermitian_eigensolver<B, D, T>(G lower, x, v, z, 0, end); }, \
      [&](auto& x) { return whole ? hermitian_eigensolver<B, D, T>(G lower, x) : hermitian_eigensolver<B, D, T>(G lower, x, 0, end); },                  \
      [&](auto& x, auto& y, auto& v, auto& z) {                                                                                                          \
        whole ? hermitian_generalized_eigensolver<B, D, T>(G lower, x, y, v, z) : hermitian_generalized_eigensolver<B, D, T>(G lower, x, y, v, z, 0, end); \
      },                                                                                                                                                 \
      [&](auto& x, auto& y) {                                                                                                                            \
        return whole ? hermitian_generalized_eigensolver<B, D, T>(G lower, x, y) : hermitian_generalized_eigensolver<B, D, T>(G lower, x, y, 0, end);      \
      },                                                                                                                                                 \
      [&](auto& x, auto& y, auto& v, auto& z) {                                                                                                          \
        whole ? hermitian_generalized_eigensolver_factorized<B, D, T>(G lower, x, y, v, z)                                                               \
              : hermitian_generalized_eigensolver_factorized<B, D, T>(G lower, x, y, v, z, 0, end);                                                      \
      },                                                                                                                                                 \
      [&](auto& x, auto& y) {                                                                                                                            \
        return whole ? hermitian_generalized_eigensolver_factorized<B, D, T>(G lower, x, y)                                                              \
                     : hermitian_generalized_eigensolver_factorized<B, D, T>(G lower, x, y, 0, end);                                                     \
      })
#define NOTHING
#define GRID *p.grid,
    if (local)
      ALL(NOTHING);
    else
      ALL(GRID);
    // the other triangles are not touched
    const auto& d = ma.distribution();
    for (const auto ij : common::iterate_range2d(d.local_nr_tiles())) {
      const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
      auto tile = tt::sync_wait(ma.read(ij));
      for (SizeType j = 0; j < tile.get().size().cols(); ++j)
        for (SizeType i = 0; i < tile.get().size().rows(); ++i)
          if (o.row() + i < o.col() + j)
            VP_CHECK(tile.get()({i, j}) == untouched<T>(o.row() + i, o.col() + j), "element (%ld,%ld) of the upper triangle got changed", o.row() + i, o.col() + j);
    }
  }, b.threads, b.limited);
  for (const auto& v : vals)
    VP_CHECK(std::equal(v.v.begin(), v.v.begin() + end, vals[0].v.begin()), "the ranks got different eigenvalues");
  check_eigenpairs<T>(a, b.gen ? &l : nullptr, end, vals[0].v, q);
  vals[0].v.resize(to_sizet(end));
  q.v.resize(to_sizet(n * end));
  vp::outcome(vp::hash_bytes(text.data(), text.size()), hash(vals[0], hash(q)));
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P26";
    s.rule = "all sizes, tile sizes, bands, matrices of the list, ranges of the spectrum, source ranks, grids and worker counts within the bound, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one solved eigenvalue problem (eigenvalues against Jacobi's method, orthonormality and residual in extended precision)";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s %s, %s %dx%d, %ld to %ld, %d blocks, %d bands, %d kinds%s%s%s, %d threads%s, %d workers, %d deviations", b.gen ? "generalized" : "standard", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max,
                                      int(b.blocks.size()), int(b.bands.size()), int(b.kinds.size()), b.all_ranges ? ", ranges" : "", b.sources ? ", sources" : "", b.returned ? ", both forms" : "", b.threads, b.limited ? " at most" : "", int(b.workers), dev),
                              [=] { solve<T>(local, r, c, b); }, dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, two = thorough ? all : LIFO_EAGER, one = thorough ? LIFO_EAGER : JUST_LIFO;
    const std::vector<int> every = {0, 1, 2, 3, 4, 5, 6, 7};
    for (bool gen : {false, true}) {
      // local
      add(0., true, 1, 1, {0, 7 + 2 * t, {2, 3, 4}, {2, 3}, every, gen, true, true, true}, 0, two, true);
      add(C(), true, 1, 1, {0, 6 + t, {2, 3, 4}, {2}, every, gen, true, true, true}, 0, one, true);
      add(0.f, true, 1, 1, {0, 6 + t, {2, 4}, {2}, every, gen, false}, 0, one, false);
      add(Cf(), true, 1, 1, {0, 6 + t, {2, 4}, {2}, every, gen, false}, 0, one, false);
      for (int th = 1; th <= 3; ++th)
        add(0., true, 1, 1, {5, 7 + t, {2, 4}, {2}, {0}, gen, false, true, false, th, true, 2}, 0, one, false);
      // grids
      for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}}) {
        const int ranks = r * c;
        if (!thorough && ranks > 4 && gen)
          continue;
        add(0., false, r, c, {0, (ranks < 4 ? 5 : 4) + t, {2, 3}, {2}, {0}, gen, ranks < 4 || thorough, ranks < 4 || thorough, true}, 0, one, ranks < 5);
        add(C(), false, r, c, {5, (ranks < 5 ? 6 : 5) + t, {2}, {2}, thorough ? every : std::vector<int>{0}, gen, false, false}, 0, JUST_EAGER, false);
        add(0., false, r, c, {6, 6 + t, {4, 2}, {2}, thorough ? every : std::vector<int>{3, 5}, gen, false, false, false, 2, false, 2}, 0, JUST_EAGER, false);
        if (thorough || ranks < 4)
          add(0.f, false, r, c, {5, 5, {4}, {2}, {0}, gen, false, false, false, 2, true, 1}, 0, JUST_EAGER, false);
      }
      add(Cf(), false, 2, 2, {5, 5, {2}, {2}, {0}, gen, false, false}, 0, JUST_EAGER, false);
      // every schedule close to the default ones
      add(0., true, 1, 1, {4, 4, {2}, {2}, {0}, gen, false}, 1, JUST_LIFO, true);
      if (thorough) {
        add(0., true, 1, 1, {5, 5, {2}, {2}, {0, 3}, gen, false, true, false, 2, false, 2}, 1, LIFO_EAGER, true);
        for (auto [r, c] : {std::pair{2, 1}, {1, 2}, {2, 2}})
          add(0., false, r, c, {3, 4, {2}, {2}, {0}, gen, false, false}, 1, JUST_LIFO, true);
      }
      else if (!gen)
        add(0., false, 1, 2, {3, 3, {2}, {2}, {0}, gen, false, false}, 1, JUST_LIFO, true);
    }
    return s;
  });
}
