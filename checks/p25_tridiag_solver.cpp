// P25: the divide-and-conquer solver for tridiagonal matrices on every input of a small set, tile size, grid, worker count and schedule
#include <dlaf/eigensolver/tridiag_solver.h>

#include "algo.hpp"

using namespace algo;

struct Bound {
  SizeType min, max;
  std::vector<SizeType> blocks;
  bool all = true;     // every combination of the entries, or the matrices of the list
  std::vector<int> d, e;
  std::vector<int> scales = {0};  // powers of 2
  bool fixed = false;  // source rank
  int threads = 2;     // number of worker threads
  bool limited = false;
  std::vector<std::size_t> rank1 = {1};
};

constexpr int TINY = 100;  // an off-diagonal element close to the deflation threshold
constexpr int kinds = 12;

template <class R>
static R number(int x) {
  return std::abs(x) >= TINY ? (x < 0 ? -1 : 1) * std::numeric_limits<R>::epsilon() * (R(1) + 3 * (std::abs(x) - TINY)) : R(x);
}

template <class R>
static std::pair<R, R> listed(int kind, SizeType i, SizeType n) {
  switch (kind) {
    case 0:  // Toeplitz
      return {2, -1};
    case 1:  // Wilkinson, pairs of close eigenvalues
      return {std::abs(R(n - 1) / 2 - R(i)), 1};
    case 2:  // zero
      return {0, 0};
    case 3:  // constant diagonal
      return {3, 0};
    case 4:  // eigenvalues +-x
      return {0, R(i % 3 + 1)};
    case 5:  // descending diagonal with tiny couplings
      return {R(n - i), number<R>(TINY + 1)};
    case 6:  // graded
      return {std::ldexp(R(1), int(-3 * i)), std::ldexp(R(1), int(-3 * i - 2))};
    case 7:  // glued blocks
      return {R(i % 3), i % 3 == 2 ? number<R>(TINY + int(i)) : R(1)};
    case 8:  // two equal blocks without a coupling
      return {R(i % ((n + 1) / 2)), i + 1 == (n + 1) / 2 ? R(0) : R(-1)};
    case 9:  // Clement
      return {0, std::sqrt(R((i + 1) * (n - 1 - i)))};
    case 10:
      return {R((7 * i + 3) % 5) - 2, R((3 * i + 1) % 4) - 1};
    default:  // repeated values on the diagonal, everything else deflates
      return {R(i / 2), i % 2 ? number<R>(-TINY) : R(0)};
  }
}

template <class T>
static void solve(bool local, int gr, int gc, Bound b) {
  using R = BaseType<T>;
  const SizeType n = b.min + pick(int(b.max - b.min) + 1);
  const SizeType nb = b.blocks[to_sizet(pick(int(b.blocks.size())))];
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc);
  const auto rank1 = b.rank1[to_sizet(pick(int(b.rank1.size())))];
  const int power = b.scales[to_sizet(pick(int(b.scales.size())))] * (sizeof(R) == 4 ? 1 : 5);
  std::vector<R> d(to_sizet(n)), e(to_sizet(n));
  if (b.all) {
    for (SizeType i = 0; i < n; ++i)
      d[to_sizet(i)] = number<R>(b.d[to_sizet(pick(int(b.d.size())))]);
    for (SizeType i = 0; i + 1 < n; ++i)
      e[to_sizet(i)] = number<R>(b.e[to_sizet(pick(int(b.e.size())))]);
  }
  else {
    const int kind = pick(kinds);
    for (SizeType i = 0; i < n; ++i)
      std::tie(d[to_sizet(i)], e[to_sizet(i)]) = listed<R>(kind, i, n);
  }
  std::string text = vp::fmt("tridiagonal solver of %s, %ld in blocks of %ld, %s %dx%d from (%d,%d), %d threads, %d for rank 1 problems, matrix 2^%d *", type_name<T>(), n, nb, local ? "local" : "grid", gr, gc, sr, sc, b.threads, int(rank1), power);
  for (SizeType i = 0; i < n; ++i)
    text += vp::fmt(" %g,%g", double(d[to_sizet(i)]), double(e[to_sizet(i)]));
  vp::context(text);
  if (n > 0)
    e[to_sizet(n - 1)] = std::numeric_limits<R>::quiet_NaN();  // not used
  for (auto* v : {&d, &e})
    for (auto& x : *v)
      x = std::ldexp(x, power);
  Dense<T> q(n, n);
  std::vector<Dense<R>> vals(to_sizet(gr * gc), Dense<R>(n, 1));
  on(local, gr, gc, [&](Place p) {
    tune({1, 1, rank1});
    Matrix<R, Device::CPU> tri(LocalElementSize(n, 2), TileElementSize(nb, 2)), evals(LocalElementSize(n, 1), TileElementSize(nb, 1));
    auto evecs = p.make<T>(n, n, nb, nb, sr, sc);
    fill(tri, [&](SizeType i, SizeType j) { return j ? e[to_sizet(i)] : d[to_sizet(i)]; });
    fill(evals, [](SizeType, SizeType) { return std::numeric_limits<R>::quiet_NaN(); });
    fill(evecs, [](SizeType, SizeType) { return T(std::numeric_limits<R>::quiet_NaN()); });
    if (local)
      eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(tri, evals, evecs);
    else
      eigensolver::internal::tridiagonal_eigensolver<Backend::MC, Device::CPU, T>(*p.grid, tri, evals, evecs);
    collect<R>(evals, vals[local ? 0 : to_sizet(p.grid->rankFullCommunicator(p.grid->rank()))]);
    collect<T>(evecs, q);
  }, b.threads, b.limited);
  for (const auto& t : vals)
    VP_CHECK(t.v == vals[0].v, "the ranks got different eigenvalues");
  const auto& l = vals[0];
  for (SizeType i = 1; i < n; ++i)
    VP_CHECK(l(i - 1, 0) <= l(i, 0), "the eigenvalues are not in ascending order: %Lg and %Lg at %ld", (long double) (l(i - 1, 0)), (long double) (l(i, 0)), i);
  long double norm = 0;
  for (SizeType i = 0; i < n; ++i)
    norm = std::max(norm, std::abs((long double) d[to_sizet(i)]) + (i + 1 < n ? std::abs((long double) e[to_sizet(i)]) : 0) + (i > 0 ? std::abs((long double) e[to_sizet(i - 1)]) : 0));
  const long double eps = std::numeric_limits<R>::epsilon();
  const auto w = wide(q);
  for (const auto& x : q.v)
    VP_CHECK(std::imag(std::complex<R>(x)) == 0, "an eigenvector is not real");
  const auto d1 = difference(adj(w) * w, identity(n));
  VP_CHECK(d1 <= 20 * eps * (n + 1), "the eigenvectors are not orthonormal (%Lg)", d1);
  const DenseW t(n, n, [&](SizeType i, SizeType j) -> std::complex<long double> { return i == j ? d[to_sizet(i)] : std::abs(i - j) == 1 ? e[to_sizet(std::min(i, j))] : 0; });
  const DenseW lambda(n, n, [&](SizeType i, SizeType j) -> std::complex<long double> { return i == j ? l(i, 0) : 0; });
  const auto d2 = difference(t * w, w * lambda);
  VP_CHECK(d2 <= 20 * eps * (n + 1) * norm, "these are not the eigenpairs of the matrix (%Lg, the norm is %Lg)", d2, norm);
  vp::outcome(vp::hash_bytes(text.data(), text.size()), hash(l, hash(q)));
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P25";
    s.rule = "all tridiagonal matrices with entries from the given sets, tile sizes, source ranks, grids and worker counts within the bound, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one solved eigenvalue problem (order, orthonormality and residual checked in extended precision)";
    const SizeType t = thorough;
    auto add = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s, %s %dx%d, %ld to %ld, %d blocks, %s (%d, %d), %d threads%s%s, %d deviations", type_name<T>(), local ? "local" : "grid", r, c, b.min, b.max, int(b.blocks.size()), b.all ? "all entries" : "list", int(b.d.size()),
                                      int(b.e.size()), b.threads, b.limited ? " at most" : "", b.fixed ? ", one source" : "", dev),
                              [=] { solve<T>(local, r, c, b); }, dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    const std::vector<int> D = {0, 1, -1}, E = {0, 1, TINY}, D2 = {1, 0}, E2 = {1, 0, -2, TINY};
    add(0., true, 1, 1, {0, 3, {1, 2, 3}, true, thorough ? std::vector<int>{0, 1, -1, 2} : D2, {0, 1, -2, TINY, TINY + 1}, {0, -20}}, 0, two, true);
    add(0.f, true, 1, 1, {0, 3, {1, 2}, true, D, E, {0, -20}}, 0, one, true);
    add(0., true, 1, 1, {4, 4, {1, 2, 3}, true, D, E}, 0, one, true);
    add(C(), true, 1, 1, {0, 3, {1, 2}, true, D2, E2}, 0, one, true);
    add(Cf(), true, 1, 1, {0, 3, {1, 2}, true, D2, E2}, 0, one, false);
    add(0., true, 1, 1, {4, 10 + 2 * t, {1, 2, 3, 4}, false, {}, {}, {0, 20}, true, 4, false, {1, 2, 3}}, 0, two, true);
    add(0.f, true, 1, 1, {4, 10 + 2 * t, {1, 2, 3}, false, {}, {}, {0, -20}, true, 4, false, {1, 2, 3}}, 0, one, false);
    if (thorough) {
      add(0., true, 1, 1, {4, 4, {1, 2}, true, {0, 1, -1, 2}, {0, 1, -2, TINY}, {0}, true, 3, false, {1, 2}}, 0, JUST_EAGER, true);
      add(0., true, 1, 1, {5, 5, {1, 2}, true, D, {0, 1, TINY}}, 0, JUST_LIFO, false);
      add(0., true, 1, 1, {6, 6, {1, 2}, true, D2, {1, 0, TINY}}, 0, JUST_LIFO, false);
    }
    for (int th = 1; th <= 3; ++th)
      add(0., true, 1, 1, {4, 8 + t, {1, 2}, false, {}, {}, {0}, true, th, true, {1, 2, 3}}, 0, two, true);
    for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}, {1, 3}, {3, 2}, {2, 3}}) {
      const int ranks = r * c;
      add(0., false, r, c, {0, ranks < 3 ? 3 : 2, {1, 2}, true, D2, {1, 0, TINY}}, 0, JUST_LIFO, ranks < 5);
      if (ranks < 5)
        add(0., false, r, c, {3, 3, {1}, true, {0, 1}, {1, 0, TINY}, {0}, true}, 0, JUST_EAGER, false);
      add(0., false, r, c, {3, (ranks < 5 ? 8 : 7) + t, {1, 2}, false, {}, {}, {0}, !thorough && ranks > 2, 3, false, {1, 2}}, 0, one, ranks < 5);
      if (thorough) {
        add(0., false, r, c, {4, 4, {1, 2}, true, D2, {1, 0, TINY}, {0}, true}, 0, JUST_LIFO, false);
        add(C(), false, r, c, {3, 6, {1, 2}, false, {}, {}, {0, 20}, true, 2, false, {1, 2}}, 0, JUST_EAGER, false);
        add(0.f, false, r, c, {3, 6, {1, 2}, false, {}, {}, {0, -20}, true, 2, false, {1, 2}}, 0, JUST_EAGER, false);
      }
      // not more tasks at once than there are workers
      for (int th = 1; th <= 2 + int(t); ++th)
        if (thorough || ranks < 5)
          add(0., false, r, c, {5, 5 + t, {1, 2}, false, {}, {}, {0}, true, th, true, {1, 2}}, 0, one, false);
    }
    add(C(), false, 2, 2, {3, 5, {2}, false, {}, {}, {20}, true, 2, false, {2}}, 0, JUST_EAGER, false);
    add(Cf(), false, 2, 2, {3, 5, {1}, false, {}, {}, {-20}, true, 2, false, {1}}, 0, JUST_EAGER, false);
    add(0.f, false, 2, 2, {3, 5, {2}, false, {}, {}, {-20}, true, 2, false, {1}}, 0, JUST_EAGER, false);
    // every schedule close to the default ones
    add(0., true, 1, 1, {3, 3, {1}, false, {}, {}, {0}, true, 2, false, {1, 2}}, 1 + t, JUST_LIFO, true);
    add(0., true, 1, 1, {thorough ? 7 : 4, thorough ? 7 : 4, {2}, false, {}, {}, {0}, true, 3, false, {1, 2}}, 1, JUST_LIFO, true);
    for (auto [r, c] : {std::pair{2, 1}, {1, 2}, {2, 2}}) {
      add(0., false, r, c, {2, 2, {1}, true, thorough || r * c < 3 ? D2 : std::vector<int>{1}, thorough || r * c < 3 ? std::vector<int>{1, 0} : std::vector<int>{1}, {0}, true, 2, false, {1}}, 1, JUST_LIFO, true);
      if (thorough)
        add(0., false, r, c, {5, 5, {2}, false, {}, {}, {0}, true, 2, false, {2}}, 1, JUST_EAGER, true);
    }
    return s;
  });
}
