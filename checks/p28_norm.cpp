// P28: the max norm is the largest absolute value of the referenced elements.
#include <complex>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/matrix.h>

#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using matrix::Distribution;
using matrix::Matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using vp::pick;

// a value of absolute value 5 * k
template <class T>
static T val(int k, int variant) {
  if constexpr (isComplex_v<T>)
    return variant % 2 ? T(-3 * k, 4 * k) : T(0, -5 * k);
  else
    return T(variant % 2 ? -5 * k : 5 * k);
}

template <class T>
static void norms(int gr, int gc, SizeType max_n, int calls, bool full) {
  const bool lower = pick(2);
  const SizeType m = full ? pick(int(max_n) + 1) : max_n, n = lower ? m : full ? pick(int(max_n) + 1) : max_n;
  const SizeType mb = full ? 1 + pick(2) : 1, nb = lower ? mb : full ? 1 + pick(2) : 1;
  const int sr = full ? pick(gr) : 0, sc = full ? pick(gc) : 0, root_r = pick(gr), root_c = pick(gc);
  // position of the maximum among the referenced elements (or all are equal to zero)
  std::vector<std::pair<SizeType, SizeType>> pos = {{-1, -1}};
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = lower ? j : 0; i < m; ++i)
      pos.push_back({i, j});
  const auto at = pos[std::size_t(pick(int(pos.size())))];
  const int variant = at.first < 0 ? 0 : pick(2);
  vp::context(vp::fmt("%s %ldx%ld in %ldx%ld tiles on %dx%d from (%d,%d), root (%d,%d), maximum at (%ld,%ld)", lower ? "lower" : "general", m, n, mb, nb, gr, gc, sr, sc, root_r, root_c, at.first, at.second));
  vp::pool_reset();
  auto value = [=](SizeType i, SizeType j, int call) -> T {
    if (lower && i < j)
      return val<T>(50, variant);  // not referenced
    if (at.first < 0)
      return T(0);
    if (i == at.first && j == at.second)
      return val<T>(7 + call, variant);
    return val<T>(int(1 + (i + 2 * j) % 5), int(i + j));
  };
  vp::ranks(gr * gc, 2, [&](int) {
    CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, common::Ordering::ColumnMajor);
    Matrix<T, Device::CPU> mat(Distribution({m, n}, {mb, nb}, grid.size(), grid.rank(), {sr, sc}));
    const auto& dist = mat.distribution();
    std::vector<ex::unique_any_sender<BaseType<T>>> results;
    for (int c = 0; c < calls; ++c) {
      for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
        const auto o = dist.globalElementIndex(dist.globalTileIndex(ij), {0, 0});
        ex::start_detached(mat.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [=](const matrix::Tile<T, Device::CPU>& t) {
                             for (SizeType j = 0; j < t.size().cols(); ++j)
                               for (SizeType i = 0; i < t.size().rows(); ++i)
                                 t({i, j}) = value(o.row() + i, o.col() + j, c);
                           }));
      }
      const comm::Index2D root((root_r + c) % gr, root_c);
      results.push_back(ex::ensure_started(auxiliary::max_norm<Backend::MC, Device::CPU, T>(grid, root, lower ? blas::Uplo::Lower : blas::Uplo::General, mat)));
    }
    for (int c = 0; c < calls; ++c) {
      const auto r = tt::sync_wait(std::move(results[std::size_t(c)]));
      const comm::Index2D root((root_r + c) % gr, root_c);
      const BaseType<T> want = at.first < 0 ? BaseType<T>(0) : BaseType<T>(5 * (7 + c));
      if (grid.rank() == root)
        VP_CHECK(r == want, "the norm is %g instead of %g", double(r), double(want));
    }
    for (const auto ij : common::iterate_range2d(dist.localNrTiles())) {
      const auto o = dist.globalElementIndex(dist.globalTileIndex(ij), {0, 0});
      auto t = tt::sync_wait(mat.read(ij));
      for (SizeType j = 0; j < t.get().size().cols(); ++j)
        for (SizeType i = 0; i < t.get().size().rows(); ++i)
          VP_CHECK(t.get()({i, j}) == value(o.row() + i, o.col() + j, calls - 1), "element (%ld,%ld) has been modified", o.row() + i, o.col() + j);
    }
    grid.wait_all_communicators();
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P28";
    s.rule = "all sizes, tile sizes, grids, source ranks, result ranks, referenced parts and positions of the maximum within the bound, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one (or two concurrent) norms";
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO;
    const SizeType t = thorough;
    auto add = [&](const char* tn, auto zero, int r, int c, SizeType n, int calls, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s on %dx%d, up to %ld, %d calls", tn, r, c, n, calls), [=] { norms<T>(r, c, n, calls, thorough || dev == 0); }, dev, pol, true, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    add("double", 0., 1, 1, 4 + t, 1, 0, ALL_POLICIES, true);
    add("double", 0., 2, 1, 3 + t, 1, 0, thorough ? unsigned(ALL_POLICIES) : two, false);
    add("double", 0., 1, 2, 3 + t, 1, 0, thorough ? unsigned(ALL_POLICIES) : two, false);
    add("double", 0., 2, 2, 3, 1, 0, thorough ? unsigned(BASIC_POLICIES) : one, false);
    add("double", 0., 3, 2, thorough ? 3 : 2, 1, 0, one, false);
    add("float", 0.f, 1, 2, 2 + t, 1, 0, BASIC_POLICIES, true);
    add("complex<float>", std::complex<float>{}, 2, 1, 2 + t, 1, 0, BASIC_POLICIES, true);
    add("complex<double>", std::complex<double>{}, 2, 2, 2 + t, 1, 0, BASIC_POLICIES, false);
    add("double", 0., 1, 1, 2, 1, 1 + int(t), ALL_POLICIES, true);
    add("double", 0., 2, 1, 2, 1, 1, thorough ? unsigned(ALL_POLICIES) : two, true);
    add("double", 0., 1, 2, 2, 2, int(t), ALL_POLICIES, true);
    return s;
  });
}
