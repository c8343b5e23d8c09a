// P24: band to tridiagonal reduction and its back-transformation on every distribution, band size, worker count and schedule
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>

#include "algo.hpp"

using namespace algo;

struct Bound {
  SizeType min, max;
  std::vector<std::pair<SizeType, SizeType>> sizes;  // block and band size
  int values = 3;
  bool fixed = false;  // source rank
  int threads = 2;     // number of worker threads
  bool limited = false;
  int factors = 2;  // block sizes of the 1D distribution: 1 to factors tiles
};

// where the vector of transformation (sweep, step) is stored, and which rows it acts on
struct Reflector {
  SizeType sweep, start, len, pos;
};
template <class T>
static std::vector<Reflector> reflectors(SizeType m, SizeType band) {
  std::vector<Reflector> r;
  const SizeType sweeps = isComplex_v<T> ? m - 1 : m - 2;
  for (SizeType sw = 0; sw < sweeps; ++sw) {
    const SizeType last = sw == m - 2 ? 1 : (m - sw - 2 + band - 1) / band;
    for (SizeType st = 0; st < last; ++st) {
      const SizeType start = 1 + sw + st * band;
      r.push_back({sw, start, std::min(band, m - start), (sw / band + st) * band});
    }
  }
  return r;
}

template <class T>
static Dense<T> input(int kind, SizeType n, SizeType band) {
  const auto a = hermitian<T>(n, 2);
  return Dense<T>(n, n, [&](SizeType i, SizeType j) -> T {
    const SizeType d = std::abs(i - j);
    if (d > band)
      return T(0);
    switch (kind) {
      case 0:
        return a(i, j);
      case 1:  // tridiagonal
        return d > 1 ? T(0) : a(i, j);
      case 2:  // only the outermost diagonals
        return d != 0 && d != band ? T(0) : a(i, j);
      default:  // diagonal, blocks
        return d != 0 && (std::min(i, j) % 3 != 0) ? T(0) : a(i, j);
    }
  });
}

template <class T>
static void reduce(bool local, int gr, int gc, Bound b) {
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const auto [nb, band] = b.sizes[to_sizet(pick(int(b.sizes.size())))];
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const int kind = n < 3 ? 0 : pick(b.values + 1);
  const SizeType factor = local ? 1 : 1 + pick(b.factors);
  const auto text = vp::fmt("band reduction of %s, input %d, %ldx%ld in blocks of %ld, band %ld, %s %dx%d from (%d,%d), %ld blocks per 1D block, %d threads", type_name<T>(), kind, n, n, nb, band, local ? "local" : "grid", gr, gc, sr, sc, factor,
                            b.threads);
  vp::context(text);
  const auto a = input<T>(kind, n, band);
  Dense<T> out(n, n);
  std::vector<Dense<BaseType<T>>> tri(to_sizet(gr * gc), Dense<BaseType<T>>(n, 2));
  on(local, gr, gc, [&](Place p) {
    tune({1, 1, 1, 100, factor * nb});
    auto mat = p.make<T>(n, n, nb, nb, sr, sc);
    const auto set = [&a, band = band](SizeType i, SizeType j) { return i >= j && i - j <= band ? a(i, j) : untouched<T>(i, j); };
    fill(mat, set);
    auto ret = local ? eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(blas::Uplo::Lower, band, mat) : eigensolver::internal::band_to_tridiagonal<Backend::MC, Device::CPU, T>(*p.grid, blas::Uplo::Lower, band, mat);
    VP_CHECK(ret.tridiagonal.size() == GlobalElementSize(n, 2), "the tridiagonal matrix is of the wrong size");
    VP_CHECK(ret.hh_reflectors.distribution() == mat.distribution(), "the reflectors are distributed in a different way");
    // the last element of the off-diagonal is not used
    for (const auto ij : common::iterate_range2d(ret.tridiagonal.distribution().local_nr_tiles())) {
      auto t = tt::sync_wait(ret.tridiagonal.read(ij));
      const auto o = ret.tridiagonal.distribution().global_element_index(GlobalTileIndex{ij.row(), ij.col()}, {0, 0});
      for (SizeType i = 0; i < t.get().size().rows(); ++i)
        for (SizeType j = 0; j < 2; ++j) {
          if (j == 1 && o.row() + i == n - 1)
            continue;
          const auto x = t.get()({i, j});
          vp::HbIgnore h;
          tri[local ? 0 : to_sizet(p.grid->rankFullCommunicator(p.grid->rank()))](o.row() + i, j) = x;
        }
    }
    collect<T>(ret.hh_reflectors, out);
    expect<T>(mat, "input", set);
  }, b.threads, b.limited);
  for (const auto& t : tri)
    VP_CHECK(t.v == tri[0].v, "the ranks got different tridiagonal matrices");
  const auto w = wide(out);
  auto q = identity(n);
  std::uint64_t hs = hash(tri[0]);
  for (const auto& r : reflectors<T>(n, band)) {
    std::vector<std::complex<long double>> v(to_sizet(n));
    v[to_sizet(r.start)] = 1;
    for (SizeType i = 1; i < r.len; ++i)
      v[to_sizet(r.start + i)] = w(r.pos + i, r.sweep);
    q = q * householder(v, w(r.pos, r.sweep));
    hs = vp::hash_bytes(&out(r.pos, r.sweep), sizeof(T) * to_sizet(r.len), hs);
  }
  const DenseW t(n, n, [&](SizeType i, SizeType j) -> std::complex<long double> { return i == j ? tri[0](i, 0) : std::abs(i - j) == 1 ? tri[0](std::min(i, j), 1) : 0; });
  const long double eps = std::numeric_limits<BaseType<T>>::epsilon() * 30.0L * (n + 1);
  const auto d1 = difference(adj(q) * q, identity(n));
  VP_CHECK(d1 <= eps, "the transformation is not unitary (%Lg)", d1);
  const auto d2 = difference(q * t * adj(q), wide(a));
  VP_CHECK(d2 <= eps * 10 * (1 + max_abs(wide(a))), "the tridiagonal matrix is not similar to the input (%Lg)", d2);
  vp::outcome(vp::hash_bytes(text.data(), text.size()), hs);
}

// The back-transformation with integer reflectors (which need not be unitary)
template <class T>
static void back(bool local, int gr, int gc, Bound b, SizeType max_cols) {
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const auto [nb, band] = b.sizes[to_sizet(pick(int(b.sizes.size())))];
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const SizeType cols = pick(int(max_cols) + 1), first = 0;  // a part of a matrix has to start in the first column
  const int kind = pick(3);
  const int cc = b.fixed ? 0 : pick(gc);
  const SizeType group = kind == 2 ? 64 : 1 + kind;
  const auto text = vp::fmt("back-transformation of %s, %d, %ldx%ld in blocks of %ld, band %ld, groups of %ld, columns %ld to %ld, %s %dx%d from (%d,%d) and (%d,%d)", type_name<T>(), kind, n, n, nb, band, group, first, first + cols,
                            local ? "local" : "grid", gr, gc, sr, sc, sr, cc);
  vp::context(text);
  const auto r = reflectors<T>(n, band);
  // what is not part of a reflector may be anything
  Dense<T> v(n, n, [](SizeType i, SizeType j) { return T(std::numeric_limits<BaseType<T>>::quiet_NaN()); });
  for (const auto& x : r) {
    v(x.pos, x.sweep) = kind == 0 ? num<T>(1, int(x.sweep) % 2) : kind == 1 ? T((x.sweep + x.pos) % 2 ? 0 : 2) : num<T>(int(x.sweep + x.pos) % 3 - 1, 1);
    for (SizeType i = 1; i < x.len; ++i)
      v(x.pos + i, x.sweep) = num<T>(int(2 * i + 3 * x.sweep + x.pos) % 3 - 1, int(i + x.sweep) % 3 - 1);
  }
  const auto c = general<T>(n, max_cols, 3);
  auto want = c;
  for (auto x = r.rbegin(); x != r.rend(); ++x)
    for (SizeType k = first; k < first + cols; ++k) {
      T s = want(x->start, k);
      for (SizeType i = 1; i < x->len; ++i)
        s += algo::conj(v(x->pos + i, x->sweep)) * want(x->start + i, k);
      s *= v(x->pos, x->sweep);
      want(x->start, k) -= s;
      for (SizeType i = 1; i < x->len; ++i)
        want(x->start + i, k) -= v(x->pos + i, x->sweep) * s;
    }
  for (const auto& x : want.v)
    if (!(std::abs(x) < (sizeof(BaseType<T>) == 4 ? 1e6 : 1e14)))
      return;  // intermediate values might get rounded
  on(local, gr, gc, [&](Place p) {
    tune({1, 1, 1, 100, 8192, group});
    auto mat_v = p.make<T>(n, n, nb, nb, sr, sc);
    auto mat_c = p.make<T>(n, max_cols, nb, nb, sr, cc);
    fill(mat_v, v);
    fill(mat_c, c);
    {
      matrix::internal::MatrixRef<T, Device::CPU> ref(mat_c, {{0, first}, {n, cols}});
      if (local)
        eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(band, ref, mat_v);
      else
        eigensolver::internal::bt_band_to_tridiagonal<Backend::MC, Device::CPU, T>(*p.grid, band, ref, mat_v);
    }
    expect<T>(mat_c, "result", want);
  }, b.threads, b.limited);
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P24";
    s.rule = "all sizes, block and band sizes, source ranks, grids, inputs and worker counts within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one reduction (unitary similarity checked in extended precision) or back-transformation (compared bit by bit with integer reflectors)";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, SizeType cols, int dev, unsigned pol, bool hb, int which = 3) {
      using T = decltype(zero);
      for (int w = 1; w <= 2; ++w) {
        if (!(which & w))
          continue;
        auto k = vp::sched_case(vp::fmt("%s, %s, %s %dx%d, %ld to %ld, %d sizes, %d threads%s%s, %d deviations", w == 1 ? "reduction" : "back-transformation", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max, int(b.sizes.size()),
                                        b.threads, b.limited ? " at most" : "", b.fixed ? ", one source" : "", dev),
                                [=] {
                                  if (w == 1)
                                    reduce<T>(local, r, c, b);
                                  else
                                    back<T>(local, r, c, b, cols);
                                },
                                dev, pol, !local, hb);
        k.split = 12;
        s.cases.push_back(k);
      }
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    const std::vector<std::pair<SizeType, SizeType>> sizes = {{2, 2}, {3, 3}, {4, 2}, {4, 4}, {6, 2}, {6, 3}}, few = {{2, 2}, {3, 3}, {4, 2}};
    const std::vector<std::pair<SizeType, SizeType>> one2 = {{2, 2}}, two2 = {{2, 2}, {4, 2}};
    add(0., true, 1, 1, {0, 9 + t, sizes}, 3, 0, two, true);
    add(0., true, 1, 1, {5, 9 + t, few, 1, true, 1}, 0, 0, two, true, 1);
    add(0., true, 1, 1, {5, 9 + t, few, 1, true, 1, true}, 0, 0, two, true, 1);
    for (int th = 1; th <= 3; th += 2) {
      add(0., true, 1, 1, {3, 8 + t, few, 1, true, th, true}, 2, 0, two, true);
      add(0., true, 1, 1, {3, 8 + t, few, 1, true, th}, 2, 0, two, true, 1);
    }
    add(C(), true, 1, 1, {0, 8 + t, sizes}, 2, 0, two, true);
    add(0.f, true, 1, 1, {0, 7 + t, few}, 2, 0, one, false);
    add(Cf(), true, 1, 1, {0, 7 + t, few}, 2, 0, one, false);
    for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}}) {
      const int ranks = r * c;
      const SizeType max = (ranks < 3 ? 9 : 8) + 2 * t;
      add(0., false, r, c, {ranks < 3 ? 0 : 3, max, few}, 2, 0, thorough ? two : one, ranks < 5);
      if (ranks < 5)
        add(C(), false, r, c, {ranks < 3 ? 0 : 4, max, few, 1}, 2, 0, one, thorough);
      // one worker for each rank
      if (thorough || ranks < 5)
        add(0., false, r, c, {4, max, few, 1, ranks > 4, 1, true}, 2, 0, one, false);
    }
    add(0.f, false, 2, 2, {5, 8 + t, few, 1, true}, 2, 0, one, false);
    add(Cf(), false, 2, 2, {5, 8 + t, few, 1, true}, 2, 0, one, false);
    // every schedule close to the default ones
    add(0., true, 1, 1, {4, 4 + t, one2, 0, true, 2}, 1, thorough ? 3 : 2, JUST_LIFO, true, 1);
    add(0., true, 1, 1, {6, 6 + t, two2, 0, true, 2}, 1, 1 + thorough, JUST_LIFO, true, 1);
    add(0., true, 1, 1, {8, 8, two2, 0, true, 3}, 1, 1, two, true, 1);
    add(0., true, 1, 1, {6, 6, two2, 0, true, 2}, 1, 1, two, true, 2);
    for (auto [r, c] : {std::pair{2, 1}, {1, 2}, {2, 2}}) {
      add(0., false, r, c, {5, 5 + t, one2, 0, true, 2, false, 1}, 1, 1, JUST_LIFO, true);
      if (thorough)
        add(0., false, r, c, {8, 8, two2, 0, true, 1, true, 2}, 1, 1, JUST_EAGER, true);
    }
    return s;
  });
}
