// P27: permuting rows or columns of a range of a matrix places every element exactly once.
#include <algorithm>
#include <numeric>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/permutations/general.h>
#include <dlaf/tune.h>

#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using matrix::Distribution;
using matrix::Matrix;
using vp::pick;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;

template <class M, class F>
static void set_elements(M& mat, F value) {
  using T = typename M::ElementType;
  const auto& dist = mat.distribution();
  for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
    const auto o = dist.globalElementIndex(dist.globalTileIndex(ij), {0, 0});
    ex::start_detached(mat.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [=](const matrix::Tile<T, Device::CPU>& t) {
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i)
                             t({i, j}) = value(o.row() + i, o.col() + j);
                       }));
  }
}
template <class M, class F>
static void check_elements(M& mat, F value, const char* what) {
  const auto& dist = mat.distribution();
  for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
    const auto o = dist.globalElementIndex(dist.globalTileIndex(ij), {0, 0});
    auto t = tt::sync_wait(mat.read(ij));
    for (SizeType j = 0; j < t.get().size().cols(); ++j)
      for (SizeType i = 0; i < t.get().size().rows(); ++i)
        VP_CHECK(t.get()({i, j}) == value(o.row() + i, o.col() + j), "%s: element (%ld,%ld) is %g instead of %g", what, o.row() + i, o.col() + j, double(t.get()({i, j})), double(value(o.row() + i, o.col() + j)));
  }
}
static std::vector<SizeType> pick_permutation(SizeType n) {
  std::vector<SizeType> left(to_sizet(n)), p;
  std::iota(left.begin(), left.end(), SizeType(0));
  while (!left.empty()) {
    const auto k = pick(int(left.size()));
    p.push_back(left[std::size_t(k)]);
    left.erase(left.begin() + k);
  }
  return p;
}

// in(i,j), out(i,j) before
template <class T>
static T in_value(SizeType i, SizeType j) {
  return T(100 * (i + 1) + j);
}
template <class T>
static T out_value(SizeType i, SizeType j) {
  return T(-100 * (i + 1) - j);
}

// what matrices get if they do not ask for a layout
static void set_default_layout(matrix::AllocationLayout l) {
  vp::HbIgnore h;
  getTuneParameters().default_allocation_layout = l;
}

// Two permutations with the same matrices, if twice (rows, then columns of the result in another matrix)
template <class T, Coord C>
static void permute(int gr, int gc, SizeType max_n, bool dist_call, bool full, bool twice, bool layouts = false) {
  constexpr Coord OC = orthogonal(C);
  const SizeType n = full ? 1 + pick(int(max_n)) : max_n;
  const SizeType nb = full ? 1 + pick(int(std::min<SizeType>(n, 3))) : 1;
  const SizeType nt = (n + nb - 1) / nb;
  const SizeType i_begin = full ? pick(int(nt) + 1) : 0, i_end = full ? i_begin + pick(int(nt - i_begin) + 1) : nt;
  const SizeType e0 = std::min(n, i_begin * nb), e1 = std::min(n, i_end * nb);
  const int sr = full ? pick(gr) : gr - 1, sc = full ? pick(gc) : 0;
  const auto perm = pick_permutation(e1 - e0);
  const auto layout = [&] { return matrix::AllocationSpec(matrix::AllocationLayout(layouts ? pick(3) : 0)); };
  const auto alloc_in = layout(), alloc_out = layout(), alloc_perms = layout();
  std::string text;
  for (auto p : perm)
    text += vp::fmt(" %ld", p);
  if (layouts)
    text += vp::fmt(", layouts %d, %d, %d", int(alloc_in.layout()), int(alloc_out.layout()), int(alloc_perms.layout()));
  vp::context(vp::fmt("%s of a %ldx%ld matrix in tiles of %ld on %dx%d from (%d,%d), tiles [%ld,%ld), permutation%s", C == Coord::Row ? "rows" : "columns", n, n, nb, gr, gc, sr, sc, i_begin, i_end, text.c_str()));
  vp::pool_reset();
  vp::ranks(gr * gc, 2, [&](int) {
    CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, common::Ordering::ColumnMajor);
    const Distribution dist({n, n}, {nb, nb}, grid.size(), grid.rank(), {sr, sc});
    if (layouts)
      set_default_layout(alloc_perms.layout());
    Matrix<T, Device::CPU> in(dist, alloc_in), out(dist, alloc_out), out2(dist, alloc_out);
    Matrix<SizeType, Device::CPU> perms(LocalElementSize(n, 1), TileElementSize(nb, 1), alloc_perms);
    set_elements(in, in_value<T>);
    set_elements(out, out_value<T>);
    set_elements(perms, [=](SizeType i, SizeType) -> SizeType { return i >= e0 && i < e1 ? perm[std::size_t(i - e0)] : SizeType(-1000); });
    Matrix<const SizeType, Device::CPU>& cperms = perms;
    Matrix<const T, Device::CPU>& cin = in;
    if (twice)
      set_elements(out2, out_value<T>);
    if (dist_call) {
      permutations::permute<Backend::MC, Device::CPU, T, C>(grid, i_begin, i_end, cperms, cin, out);
      if (twice) {
        Matrix<const T, Device::CPU>& cout = out;
        permutations::permute<Backend::MC, Device::CPU, T, OC>(grid, i_begin, i_end, cperms, cout, out2);
      }
    }
    else {
      permutations::permute<Backend::MC, Device::CPU, T, C>(i_begin, i_end, cperms, cin, out);
      if (twice) {
        Matrix<const T, Device::CPU>& cout = out;
        permutations::permute<Backend::MC, Device::CPU, T, OC>(i_begin, i_end, cperms, cout, out2);
      }
    }
    auto inside = [=](SizeType i) { return i >= e0 && i < e1; };
    auto first = [=](SizeType i, SizeType j) {
      if (!inside(i) || !inside(j))
        return out_value<T>(i, j);
      (C == Coord::Row ? i : j) = e0 + perm[std::size_t((C == Coord::Row ? i : j) - e0)];
      return in_value<T>(i, j);
    };
    auto second = [=](SizeType i, SizeType j) {
      if (!inside(i) || !inside(j))
        return out_value<T>(i, j);
      (OC == Coord::Row ? i : j) = e0 + perm[std::size_t((OC == Coord::Row ? i : j) - e0)];
      return first(i, j);
    };
    check_elements(out, first, "output");
    if (twice)
      check_elements(out2, second, "output of the second permutation");
    check_elements(in, in_value<T>, "input");
    check_elements(perms, [=](SizeType i, SizeType) -> SizeType { return i >= e0 && i < e1 ? perm[std::size_t(i - e0)] : SizeType(-1000); }, "permutation");
    grid.wait_all_communicators();
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

// The local call on the local part of a distributed matrix: the permutation is in terms of local elements
template <class T, Coord C>
static void permute_local_part(SizeType max_n) {
  constexpr Coord OC = orthogonal(C);
  const SizeType n = 1 + pick(int(max_n)), nb = 1 + pick(2);
  const SizeType nt = (n + nb - 1) / nb;
  const int g = 1 + pick(3), rank = pick(g), src = pick(g);
  const SizeType i_begin = pick(int(nt) + 1), i_end = i_begin + pick(int(nt - i_begin) + 1);
  const SizeType e0 = std::min(n, i_begin * nb), e1 = std::min(n, i_end * nb);
  // the distributed dimension is the one that is permuted
  comm::Size2D gs(1, 1);
  comm::Index2D rk(0, 0), sr(0, 0);
  if constexpr (C == Coord::Row) {
    gs = {g, 1};
    rk = {rank, 0};
    sr = {src, 0};
  }
  else {
    gs = {1, g};
    rk = {0, rank};
    sr = {0, src};
  }
  const Distribution dist({n, n}, {nb, nb}, gs, rk, sr);
  // elements of this rank, in order; those in the range
  std::vector<SizeType> local, range;
  for (SizeType i = 0; i < n; ++i)
    if (int((i / nb + src) % g) == rank) {
      if (i >= e0 && i < e1)
        range.push_back(i);
      local.push_back(i);
    }
  const auto perm = pick_permutation(SizeType(range.size()));
  std::string text;
  for (auto p : perm)
    text += vp::fmt(" %ld", p);
  vp::context(vp::fmt("local %s of rank %d of %d (source %d) of a %ldx%ld matrix in tiles of %ld, tiles [%ld,%ld), permutation%s", C == Coord::Row ? "rows" : "columns", rank, g, src, n, n, nb, i_begin, i_end, text.c_str()));
  vp::pool_reset();
  vp::mpi_set_initialized(true);
  vp::run_ranks({1, 2}, [&](int) {
    Matrix<T, Device::CPU> in(dist), out(dist);
    Matrix<SizeType, Device::CPU> perms(LocalElementSize(SizeType(local.size()), 1), TileElementSize(nb, 1));
    set_elements(in, in_value<T>);
    set_elements(out, out_value<T>);
    const SizeType first = SizeType(std::count_if(local.begin(), local.end(), [=](SizeType i) { return i < e0; }));
    set_elements(perms, [=](SizeType i, SizeType) -> SizeType { return i >= first && i < first + SizeType(perm.size()) ? perm[std::size_t(i - first)] : SizeType(-1000); });
    Matrix<const SizeType, Device::CPU>& cperms = perms;
    Matrix<const T, Device::CPU>& cin = in;
    permutations::permute<Backend::MC, Device::CPU, T, C>(i_begin, i_end, cperms, cin, out);
    check_elements(out, [=](SizeType i, SizeType j) -> T {
      const SizeType x = C == Coord::Row ? i : j, y = C == Coord::Row ? j : i;
      if (x < e0 || x >= e1 || y < e0 || y >= e1)
        return out_value<T>(i, j);
      const auto k = std::size_t(std::find(range.begin(), range.end(), x) - range.begin());
      const SizeType from = range[std::size_t(perm[k])];
      return C == Coord::Row ? in_value<T>(from, j) : in_value<T>(i, from);
    }, "output");
    check_elements(in, in_value<T>, "input");
  });
  (void)OC;
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P27";
    s.rule = "all permutations of all tile ranges, sizes, tile sizes, grids and source ranks within the bound, rows and columns, local and distributed, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one permutation (or two after each other)";
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO;
    auto add = [&](auto zero, int r, int c, SizeType n, bool dist, bool full, bool twice, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      for (const bool row : {true, false}) {
        auto k = vp::sched_case(vp::fmt("%s %s %s on %dx%d, up to %ld%s%s", dist ? "distributed" : "local", row ? "rows" : "columns", sizeof(T) == 8 ? "double" : "float", r, c, n, full ? "" : " (whole matrix)", twice ? ", both ways" : ""),
                                [=] { row ? permute<T, Coord::Row>(r, c, n, dist, full, twice) : permute<T, Coord::Col>(r, c, n, dist, full, twice); }, dev, pol, dist, hb);
        k.split = 12;
        s.cases.push_back(k);
      }
    };
    const unsigned most = thorough ? unsigned(ALL_POLICIES) : two;
    add(0., 1, 1, thorough ? 6 : 5, false, true, false, 0, thorough ? unsigned(ALL_POLICIES) : unsigned(BASIC_POLICIES), true);
    add(0., 1, 1, 3, false, true, true, thorough ? 1 : 0, thorough ? unsigned(BASIC_POLICIES) : one, true);
    add(0., 1, 1, thorough ? 6 : 5, true, true, false, 0, most, true);
    add(0., 2, 1, thorough ? 6 : 5, true, true, false, 0, most, false);
    add(0., 1, 2, thorough ? 6 : 5, true, true, false, 0, most, false);
    add(0., 2, 2, thorough ? 5 : 4, true, true, false, 0, most, false);
    add(0., 2, 1, 4, true, true, false, 0, one, true);
    add(0., 1, 2, 4, true, true, false, 0, one, true);
    add(0., 3, 2, thorough ? 5 : 4, true, true, false, 0, one, false);
    add(0., 2, 3, thorough ? 5 : 4, true, true, false, 0, one, false);
    add(0., 2, 2, thorough ? 3 : 2, true, true, true, 0, most, true);
    add(0.f, 2, 1, 3, true, true, false, 0, one, false);
    add(0.f, 1, 2, 3, true, true, false, 0, one, false);
    add(0., 2, 1, thorough ? 3 : 2, true, false, false, 1, most, true);
    add(0., 1, 2, thorough ? 3 : 2, true, false, false, 1, most, true);
    if (thorough)
      add(0., 2, 2, 2, true, false, false, 1, one, false);
    // matrices and permutations that are stored in another way, which is what the temporary ones use by default as well
    for (const int gr : {0, 1, 2})
      for (const bool row : {true, false}) {
        auto k = vp::sched_case(vp::fmt("%s %s on %dx%d, all layouts", gr ? "distributed" : "local", row ? "rows" : "columns", gr ? gr : 1, gr ? 3 - gr : 1),
                                [=] {
                                  const int r = gr ? gr : 1, c = gr ? 3 - gr : 1;
                                  row ? permute<double, Coord::Row>(r, c, thorough ? 4 : 3, gr, true, false, true) : permute<double, Coord::Col>(r, c, thorough ? 4 : 3, gr, true, false, true);
                                  getTuneParameters() = TuneParameters();
                                }, 0, one, false, false);
        k.split = 8;
        s.cases.push_back(k);
      }
    s.cases.push_back(vp::sched_case("local rows of a distributed matrix", [=] { permute_local_part<double, Coord::Row>(thorough ? 6 : 5); }, 0, two, false));
    s.cases.push_back(vp::sched_case("local columns of a distributed matrix", [=] { permute_local_part<double, Coord::Col>(thorough ? 6 : 5); }, 0, two, false));
    return s;
  });
}
