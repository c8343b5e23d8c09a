// P17: matrix copies reproduce the source, also between different distributions.
#include <complex>
#include <memory>
#include <optional>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>

#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using matrix::Distribution;
using matrix::Matrix;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;
namespace ex = pika::execution::experimental;
using vp::pick;

template <class T>
static T value(SizeType i, SizeType j) {
  return T(100 * (i + 1) + j + 1);
}
// dst is first set to -value, src to value; after the copy both get doubled (which has to come last)
template <class T, class F>
static void for_tiles(Matrix<T, Device::CPU>& m, F f) {
  const auto dist = m.distribution();
  for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
    const auto g = dist.globalTileIndex(ij);
    const auto o = dist.globalElementIndex(g, {0, 0});
    ex::start_detached(m.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [f, o](const matrix::Tile<T, Device::CPU>& t) {
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i)
                             f(t({i, j}), o.row() + i, o.col() + j);
                       }));
  }
}
template <class T>
static void set_both(Matrix<T, Device::CPU>& src, Matrix<T, Device::CPU>& dst) {
  for_tiles(src, [](T& x, SizeType i, SizeType j) { x = value<T>(i, j); });
  for_tiles(dst, [](T& x, SizeType i, SizeType j) { x = -value<T>(i, j); });
}
template <class T>
static void double_both(Matrix<T, Device::CPU>& src, Matrix<T, Device::CPU>& dst) {
  for_tiles(src, [](T& x, SizeType, SizeType) { x *= T(2); });
  for_tiles(dst, [](T& x, SizeType, SizeType) { x *= T(2); });
}
// want(i, j): expected element at global index (i, j)
template <class T, class F>
static void check(const char* what, Matrix<T, Device::CPU>& m, F want) {
  const auto dist = m.distribution();
  for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
    const auto o = dist.globalElementIndex(dist.globalTileIndex(ij), {0, 0});
    auto t = pika::this_thread::experimental::sync_wait(m.read(ij));
    for (SizeType j = 0; j < t.get().size().cols(); ++j)
      for (SizeType i = 0; i < t.get().size().rows(); ++i) {
        const T w = want(o.row() + i, o.col() + j);
        VP_CHECK(t.get()({i, j}) == w, "%s: element (%ld,%ld) is %g instead of %g", what, o.row() + i, o.col() + j, double(std::real(t.get()({i, j}))), double(std::real(w)));
      }
  }
}

// ---- between distributions

struct Dim {
  SizeType size, src_tile, dst_tile;
  int src_rank, dst_rank;
};
static std::vector<Dim> dims(int grid, SizeType max_size, SizeType max_tile) {
  std::vector<Dim> v;
  for (SizeType s = 0; s <= max_size; ++s)
    for (SizeType a = 1; a <= max_tile; ++a)
      for (SizeType b = 1; b <= max_tile; ++b)
        if ((a % b == 0 || b % a == 0) && (s > 0 || (a == 1 && b == 1)) && (a <= s + 1 || a == 1) && (b <= s + 1 || b == 1))
          for (int p = 0; p < grid; ++p)
            for (int q = 0; q < grid; ++q)
              if (p == 0 || q == 0 || p == q)  // rotations of the ranks are covered by the other cases
                v.push_back({s, a, b, p, q});
  return v;
}
template <class T>
static void redistribute(int gr, int gc, const std::vector<Dim>& rows, const std::vector<Dim>& cols, int n_copies) {
  const Dim r = rows[std::size_t(pick(int(rows.size())))], c = cols[std::size_t(pick(int(cols.size())))];
  const std::string text = vp::fmt("%ldx%ld, tiles %ldx%ld from (%d,%d) to tiles %ldx%ld from (%d,%d) on %dx%d", r.size, c.size, r.src_tile, c.src_tile, r.src_rank, c.src_rank, r.dst_tile, c.dst_tile, r.dst_rank, c.dst_rank, gr, gc);
  vp::context(text);
  vp::pool_reset();
  vp::ranks(gr * gc, 2, [&](int) {
    CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, common::Ordering::ColumnMajor);
    Matrix<T, Device::CPU> src(Distribution({r.size, c.size}, {r.src_tile, c.src_tile}, grid.size(), grid.rank(), {r.src_rank, c.src_rank}));
    Matrix<T, Device::CPU> dst(Distribution({r.size, c.size}, {r.dst_tile, c.dst_tile}, grid.size(), grid.rank(), {r.dst_rank, c.dst_rank}));
    set_both(src, dst);
    matrix::copy(src, dst, grid);
    if (n_copies > 1) {  // a second copy at once, of other values
      double_both(src, dst);
      matrix::copy(src, dst, grid);
    }
    double_both(src, dst);
    const int f = n_copies > 1 ? 4 : 2;
    check("source", src, [&](SizeType i, SizeType j) { return T(f) * value<T>(i, j); });
    check("destination", dst, [&](SizeType i, SizeType j) { return T(f) * value<T>(i, j); });
    grid.wait_all_communicators();
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

// ---- same distribution

template <class T>
static void local_range(SizeType max_tiles) {
  // rows and columns of tiles of 2 x 2 elements, where the last ones have a single row or column
  const SizeType m = 2 * (1 + pick(int(max_tiles))), n = 2 * (1 + pick(int(max_tiles)));
  const SizeType cut_m = pick(2), cut_n = pick(2);
  const Distribution dist({m - cut_m, n - cut_n}, {2, 2});
  const auto nt = dist.localNrTiles();
  const SizeType i0 = pick(int(nt.rows()) + 1), j0 = pick(int(nt.cols()) + 1);
  const SizeType ni = pick(int(nt.rows() - i0) + 1), nj = pick(int(nt.cols() - j0) + 1);
  // destination of the same extent
  std::vector<SizeType> is, js;
  auto extent = [](SizeType b, SizeType k, SizeType size) { return std::max<SizeType>(0, std::min(2 * (b + k), size) - 2 * b); };
  for (SizeType i = 0; i + ni <= nt.rows(); ++i)
    if (extent(i, ni, dist.size().rows()) == extent(i0, ni, dist.size().rows()))
      is.push_back(i);
  for (SizeType j = 0; j + nj <= nt.cols(); ++j)
    if (extent(j, nj, dist.size().cols()) == extent(j0, nj, dist.size().cols()))
      js.push_back(j);
  const SizeType i1 = is[std::size_t(pick(int(is.size())))], j1 = js[std::size_t(pick(int(js.size())))];
  const int layout = pick(2);
  vp::context(vp::fmt("%ldx%ld: tiles (%ld,%ld)+(%ld,%ld) to (%ld,%ld)", m - cut_m, n - cut_n, i0, j0, ni, nj, i1, j1));
  vp::pool_reset();
  vp::ranks(1, 2, [&](int) {
    Matrix<T, Device::CPU> src(dist, matrix::AllocationSpec{});
    Matrix<T, Device::CPU> dst(LocalElementSize(dist.size().rows(), dist.size().cols()), {2, 2}, layout ? matrix::AllocationLayout::ColMajor : matrix::AllocationLayout::Tiles);
    set_both(src, dst);
    if (i0 == i1 && j0 == j1 && pick(2))
      matrix::copy(LocalTileIndex(i0, j0), LocalTileSize(ni, nj), src, dst);
    else
      matrix::copy(LocalTileSize(ni, nj), LocalTileIndex(i0, j0), src, LocalTileIndex(i1, j1), dst);
    double_both(src, dst);
    check("source", src, [&](SizeType i, SizeType j) { return T(2) * value<T>(i, j); });
    check("destination", dst, [&](SizeType i, SizeType j) {
      const SizeType ti = i / 2, tj = j / 2;
      const bool in = ti >= i1 && ti < i1 + ni && tj >= j1 && tj < j1 + nj;
      return T(2) * (in ? value<T>(i - 2 * (i1 - i0), j - 2 * (j1 - j0)) : -value<T>(i, j));
    });
  });
  ++vp::n_nontrivial;
}

// copies inside one matrix (local tiles of a distributed one too): of a range of tiles, or of a reference, to another place
template <class T>
static void same_matrix(int gr, int gc, SizeType m, SizeType n, bool refs) {
  const int sr = pick(gr), sc = pick(gc);
  const SizeType i0 = pick(int(m)), j0 = pick(int(n)), ni = 1 + pick(int(m - i0)), nj = 1 + pick(int(n - j0));
  const SizeType i1 = pick(int(m - ni) + 1), j1 = pick(int(n - nj) + 1);
  const bool same = i0 == i1 && j0 == j1, apart = i1 >= i0 + ni || i0 >= i1 + ni || j1 >= j0 + nj || j0 >= j1 + nj;
  // (the result is not specified if the ranges overlap in part, and references have to be distributed in the same way)
  if (!(same || apart) || (refs && ((i1 - i0) % gr != 0 || (j1 - j0) % gc != 0)))
    return;
  vp::context(vp::fmt("%s of a matrix of %ldx%ld tiles on %dx%d from (%d,%d): (%ld,%ld)+(%ld,%ld) to (%ld,%ld)", refs ? "references" : "tiles of each rank", m, n, gr, gc, sr, sc, i0, j0, ni, nj, i1, j1));
  vp::pool_reset();
  vp::ranks(gr * gc, 2, [&](int me) {
    const comm::Index2D rank(me % gr, me / gr);
    // refs: m x n tiles in all, otherwise on each rank
    const GlobalElementSize sz = refs ? GlobalElementSize(2 * m, 2 * n) : GlobalElementSize(2 * m * gr, 2 * n * gc);
    Matrix<T, Device::CPU> mat(Distribution(sz, {2, 2}, {gr, gc}, rank, {sr, sc}));
    const auto dist = mat.distribution();
    for_tiles(mat, [](T& x, SizeType i, SizeType j) { x = value<T>(i, j); });
    if (refs) {
      MatrixRef<const T, Device::CPU> rs(mat, SubMatrixSpec{{2 * i0, 2 * j0}, {2 * ni, 2 * nj}});
      MatrixRef<T, Device::CPU> rd(mat, SubMatrixSpec{{2 * i1, 2 * j1}, {2 * ni, 2 * nj}});
      if (same)
        matrix::internal::copy(rd, rd);
      else
        matrix::internal::copy(rs, rd);
    }
    else
      matrix::copy(LocalTileSize(ni, nj), LocalTileIndex(i0, j0), mat, LocalTileIndex(i1, j1), mat);
    for_tiles(mat, [](T& x, SizeType, SizeType) { x *= T(2); });
    check("matrix", mat, [&](SizeType i, SizeType j) {
      if (refs) {
        const bool in = i >= 2 * i1 && i < 2 * (i1 + ni) && j >= 2 * j1 && j < 2 * (j1 + nj);
        return T(2) * (in ? value<T>(i - 2 * (i1 - i0), j - 2 * (j1 - j0)) : value<T>(i, j));
      }
      const auto lc = dist.localTileIndex(dist.globalTileIndex(GlobalElementIndex(i, j)));
      const bool in = lc.row() >= i1 && lc.row() < i1 + ni && lc.col() >= j1 && lc.col() < j1 + nj;
      return T(2) * (in ? value<T>(i - 2 * gr * (i1 - i0), j - 2 * gc * (j1 - j0)) : value<T>(i, j));
    });
  });
  ++vp::n_nontrivial;
}

template <class T>
static void whole_and_refs(int gr, int gc, SizeType max_m, SizeType max_n) {
  const SizeType m = pick(int(max_m) + 1), n = pick(int(max_n) + 1), mb = 1 + pick(2), nb = 1 + pick(2);
  const int sr = pick(gr), sc = pick(gc);
  const SizeType i0 = pick(int(m) + 1), j0 = pick(int(n) + 1), ni = pick(int(m - i0) + 1), nj = pick(int(n - j0) + 1);
  // destination: moved by multiples of a whole round of tiles over the ranks
  const SizeType pr = mb * gr, pc = nb * gc;
  const SizeType i1 = i0 % pr + pr * pick(2), j1 = j0 % pc + pc * pick(2);
  const bool whole = i0 == 0 && j0 == 0 && ni == m && nj == n && i1 == 0 && j1 == 0;
  vp::context(vp::fmt("%ldx%ld in %ldx%ld tiles on %dx%d from (%d,%d): (%ld,%ld)+(%ld,%ld) to (%ld,%ld)", m, n, mb, nb, gr, gc, sr, sc, i0, j0, ni, nj, i1, j1));
  vp::pool_reset();
  vp::ranks(gr * gc, 2, [&](int me) {
    const comm::Index2D rank(me % gr, me / gr);
    Matrix<T, Device::CPU> src(Distribution({m, n}, {mb, nb}, {gr, gc}, rank, {sr, sc}));
    const GlobalElementSize dsz = whole ? GlobalElementSize(m, n) : GlobalElementSize(i1 + ni + 1, j1 + nj + 1);
    Matrix<T, Device::CPU> dst(Distribution(dsz, {mb, nb}, {gr, gc}, rank, {sr, sc}));
    set_both(src, dst);
    if (whole)
      matrix::copy(src, dst);
    else {
      MatrixRef<const T, Device::CPU> rs(src, SubMatrixSpec{{i0, j0}, {ni, nj}});
      MatrixRef<T, Device::CPU> rd(dst, SubMatrixSpec{{i1, j1}, {ni, nj}});
      matrix::internal::copy(rs, rd);
    }
    double_both(src, dst);
    check("source", src, [&](SizeType i, SizeType j) { return T(2) * value<T>(i, j); });
    check("destination", dst, [&](SizeType i, SizeType j) {
      const bool in = i >= i1 && i < i1 + ni && j >= j1 && j < j1 + nj;
      return T(2) * (in ? value<T>(i - i1 + i0, j - j1 + j0) : -value<T>(i, j));
    });
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P17";
    s.rule = "all pairs of distributions (sizes, tile sizes, source ranks) on the grids within the bound, all ranges of tiles and pairs of references; both MPI behaviours, schedules within the deviation bound; "
             "non-trivial: one copy";
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    auto add = [&](int r, int c, SizeType mr, SizeType tr, SizeType mc, SizeType tc, int copies, int dev, unsigned pol, bool hb = false) {
      const auto dr = dims(r, mr, tr), dc = dims(c, mc, tc);
      auto k = vp::sched_case(vp::fmt("redistribute on %dx%d, up to %ldx%ld in %ldx%ld tiles, x%d", r, c, mr, mc, tr, tc, copies), [=] { redistribute<double>(r, c, dr, dc, copies); }, dev, pol, true, hb);
      k.split = 24;
      s.cases.push_back(k);
    };
    const int t = thorough;
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO;
    add(1, 1, 5, 4, 4, 4, 1, 0, t ? ALL_POLICIES : BASIC_POLICIES);
    add(2, 1, 6 + t, 4, 3, 2 + t, 1, 0, t ? unsigned(BASIC_POLICIES) : two);
    add(1, 2, 3, 2 + t, 6 + t, 4, 1, 0, t ? unsigned(BASIC_POLICIES) : two);
    add(2, 2, 4 + t, 2 + t, 4, 2, 1, 0, t ? two : one);
    add(3, 1, 7, 2, 2, 1, 1, 0, t ? unsigned(ALL_POLICIES) : two);
    if (t)
      add(2, 3, 3, 2, 4, 2, 1, 0, one);
    add(2, 1, 4, 2, 2, 1, 1, 1, t ? unsigned(ALL_POLICIES) : two, true);
    add(1, 2, 2, 1, 3, 2, 1, 1, t ? unsigned(ALL_POLICIES) : one, true);
    add(2, 1, 2 + t, 2, 2, 1, 2, 1, t ? unsigned(BASIC_POLICIES) : one, true);
    add(2, 2, 2, 1 + t, 2, 1, 1, t, t ? unsigned(ALL_POLICIES) : one, true);
    for (SizeType k = 1; k <= 2 + t; ++k) {
      auto c = vp::sched_case(vp::fmt("ranges of up to %ldx%ld tiles", k, k), [=] { local_range<double>(k); }, k == 1 ? 2 : t && k == 2, k <= 2 ? ALL_POLICIES : BASIC_POLICIES, false, k <= 2);
      c.split = 8;
      s.cases.push_back(c);
    }
    for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}}) {
      auto k = vp::sched_case(vp::fmt("references on %dx%d", r, c), [=, r = r, c = c] { whole_and_refs<double>(r, c, r * c > 1 ? 3 + t : 4, r * c > 1 ? 3 : 4); }, 0, t ? ALL_POLICIES : (1u << vp::LIFO), false, false);
      k.split = 12;
      s.cases.push_back(k);
      for (int refs = 0; refs < 2; ++refs) {
        const bool big = r * c == 1;
        auto f = [=, r = r, c = c] {
          if (pick(2))
            same_matrix<double>(r, c, refs ? 1 + 2 * r : 2 + big, refs ? 1 + 2 * c : 2, refs);
          else
            same_matrix<std::complex<float>>(r, c, 2 + (refs ? r - 1 : 0), 2 + (refs ? c - 1 : 0), refs);
        };
        auto k2 = vp::sched_case(vp::fmt("inside one matrix, %s on %dx%d", refs ? "references" : "tiles", r, c), f, r * c == 1 && t, t ? unsigned(ALL_POLICIES) : two, false, r * c == 1);
        k2.split = 6;
        s.cases.push_back(k2);
      }
    }
    return s;
  });
}
