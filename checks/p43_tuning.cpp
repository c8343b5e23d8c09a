// P43: the tune parameters only change how results get computed, not the results.
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/internal/get_1d_block_size.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/eigensolver/internal/get_red2band_panel_nworkers.h>
#include <dlaf/eigensolver/internal/get_tridiag_rank1_nworkers.h>

#include "eigen.hpp"

using namespace algo;

// ---- what gets derived from the parameters

static void sizes(SizeType max_nb, SizeType max_value) {
  const SizeType nb = 1 + pick(int(max_nb));
  vp::ranks(1, 2, [&](int) {
    for (SizeType v = 1; v <= max_value; ++v) {
      Tune t;
      if (v >= 2) {
        t.min_band = v;
        tune(t);
        // the smallest divisor of the block size that is not less than the parameter
        SizeType want = nb;
        for (SizeType d = nb; d >= v; --d)
          if (nb % d == 0)
            want = d;
        const SizeType got = eigensolver::internal::getBandSize(nb);
        VP_CHECK(got == want, "the band for blocks of %ld is %ld instead of %ld if the minimum is %ld", nb, got, want, v);
      }
      t.b2t_block = v;
      tune(t);
      // a multiple of the block size, with whole blocks even if the parameter is less than one
      const SizeType want = std::max<SizeType>(1, v / nb) * nb, got = eigensolver::internal::get1DBlockSize(nb);
      VP_CHECK(got == want, "the 1D block size for blocks of %ld is %ld instead of %ld if the base is %ld", nb, got, want, v);
    }
    getTuneParameters() = TuneParameters();
  });
  ++vp::n_nontrivial;
}
static void workers(int max_threads) {
  const int threads = 1 + pick(max_threads);
  const std::size_t v = std::size_t(pick(2 * max_threads));
  vp::context(vp::fmt("%d threads, parameter %d", threads, int(v)));
  vp::ranks(1, threads, [&](int) {
    tune({v, 1, v});
    const std::size_t n1 = eigensolver::internal::get_red2band_panel_num_workers(), n2 = eigensolver::internal::get_tridiag_rank1_num_workers();
    // at least one, at most the parameter or what is available, where the panel leaves one thread to others
    const std::size_t avail = std::size_t(threads), limit1 = std::max<std::size_t>(1, std::min(v, avail > 1 ? avail - 1 : 1)), limit2 = std::max<std::size_t>(1, std::min(v, avail));
    VP_CHECK(n1 >= 1 && n1 <= limit1 && n2 >= 1 && n2 <= limit2, "%d workers for the panel and %d for the rank one problems", int(n1), int(n2));
    getTuneParameters() = TuneParameters();
  });
  ++vp::n_nontrivial;
}

// ---- results

struct Bound {
  std::vector<std::pair<SizeType, SizeType>> sizes;  // and block sizes
  std::vector<SizeType> bands, bases, groups;
  std::vector<std::size_t> workers;
  int layouts = 3, pipelines = 2;
  bool each_worker = false;  // the numbers of workers of the algorithms differ
  bool gen = false;
};
template <class V>
static auto of(const V& v) {
  return v[to_sizet(pick(int(v.size())))];
}

template <class T>
static void solve(bool local, int gr, int gc, Bound b) {
  using R = BaseType<T>;
  const auto [n, nb] = of(b.sizes);
  Tune t;
  t.min_band = of(b.bands);
  t.b2t_block = local ? 8192 : of(b.bases);  // only used with a grid
  t.apply_group = of(b.groups);
  t.panel = t.tfactor = t.rank1 = of(b.workers);
  if (b.each_worker) {
    t.tfactor = of(b.workers);
    t.rank1 = of(b.workers);
  }
  const int layout = pick(b.layouts), npipes = local ? 1 : 2 + pick(b.pipelines);
  const std::size_t busy = layout % 2 ? 0 : 1000;
  vp::context(vp::fmt("%s eigensolver of %s, size %ld in blocks of %ld, %s %dx%d, tuned to min band %ld, 1D block base %ld, group %ld, workers %d, %d and %d, layout %d, %d pipelines", b.gen ? "generalized" : "standard",
                      type_name<T>(), n, nb, local ? "local" : "grid", gr, gc, t.min_band, t.b2t_block, t.apply_group, int(t.panel), int(t.tfactor), int(t.rank1), layout, npipes));
  const auto a = hermitian<T>(n, 1);
  const auto l = lower_factor<T>(n, 1);
  const auto bb = b.gen ? l * adj(l) : Dense<T>();
  Dense<T> q(n, n);
  std::vector<Dense<R>> vals(to_sizet(gr * gc), Dense<R>(n, 1));
  // (the grid takes its number of pipelines, at least two for the reduction to band, from the parameters when it gets created)
  vp::pool_reset();
  vp::ranks(gr * gc, 3, [&, n = n, nb = nb](int) {
    tune(t);
    {
      auto& p = getTuneParameters();
      vp::HbIgnore h;
      p.default_allocation_layout = matrix::AllocationLayout(layout);
      p.communicator_grid_num_pipelines = std::size_t(npipes);
      p.tfactor_barrier_busy_wait_us = p.red2band_barrier_busy_wait_us = p.tridiag_rank1_barrier_busy_wait_us = busy;
      p.debug_dump_cholesky_factorization_data = p.debug_dump_eigensolver_data = p.debug_dump_tridiag_solver_data = npipes != 2;
    }
    auto body = [&](Place p) {
      constexpr auto B = Backend::MC;
      constexpr auto D = Device::CPU;
      constexpr auto lower = blas::Uplo::Lower;
      auto ma = p.make<T>(n, n, nb, nb, 0, gc - 1);
      fill(ma, a, lower);
      auto done = [&](auto res) {
        collect<R>(res.eigenvalues, vals[local ? 0 : to_sizet(p.grid->rankFullCommunicator(p.grid->rank()))]);
        collect<T>(res.eigenvectors, q);
      };
      if (b.gen) {
        auto mb = p.make<T>(n, n, nb, nb, 0, gc - 1);
        fill(mb, bb, lower);
        done(local ? hermitian_generalized_eigensolver<B, D, T>(lower, ma, mb) : hermitian_generalized_eigensolver<B, D, T>(*p.grid, lower, ma, mb));
      }
      else
        done(local ? hermitian_eigensolver<B, D, T>(lower, ma) : hermitian_eigensolver<B, D, T>(*p.grid, lower, ma));
    };
    if (local)
      body(Place{});
    else {
      CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, common::Ordering::ColumnMajor);
      body(Place{&grid});
      grid.wait_all_communicators();
    }
    vp::HbIgnore h;
    getTuneParameters() = TuneParameters();
  });
  for (const auto& v : vals)
    VP_CHECK(v.v == vals[0].v, "the ranks got different eigenvalues");
  check_eigenpairs<T>(a, b.gen ? &l : nullptr, n, vals[0].v, q);
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P43";
    s.rule = "all combinations of the listed values of the tune parameters (band, 1D block, group of reflectors, workers, layout, pipelines, busy waiting, dumps) for every size, block size, grid and element type within the bound; "
             "the sizes derived from them for all block sizes and values up to the bound; non-trivial: one solved eigenvalue problem or one block size or thread count";
    const SizeType t = thorough;
    auto plain = [&](const char* name, auto f, int split) {
      auto k = vp::sched_case(name, f, 0, JUST_LIFO, false, false);
      k.split = split;
      s.cases.push_back(k);
    };
    plain("derived sizes", [=] { sizes(thorough ? 512 : 96, thorough ? 1100 : 220); }, 4);
    plain("derived workers", [=] { workers(thorough ? 12 : 6); }, 1);
    auto add = [&](auto zero, bool local, int r, int c, Bound b, unsigned pol) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("%s %s, %s %dx%d, %d sizes, %d bands, %d 1D blocks, %d groups, %d workers%s", b.gen ? "generalized" : "standard", type_name<T>(), local ? "local" : "grid", r, c, int(b.sizes.size()), int(b.bands.size()),
                                      int(b.bases.size()), int(b.groups.size()), int(b.workers.size()), b.each_worker ? " each" : ""),
                              [=] { solve<T>(local, r, c, b); }, 0, pol, false, false);
      k.split = 12;
      s.cases.push_back(k);
    };
    using C = std::complex<double>;
    const unsigned pol = thorough ? LIFO_EAGER : JUST_LIFO;
    const std::vector<SizeType> bands = {2, 3, 100}, bases = {1, 3, 5, 8, 8192}, groups = {1, 2, 3, 64};
    const std::vector<std::size_t> w = {1, 2, 64};
    add(0., true, 1, 1, {{{7, 2}, {7, 4}, {8, 6}, {9, 3}}, bands, bases, groups, w, 3, 1, true}, pol);
    add(C(), true, 1, 1, {{{7, 4}, {8, 6}}, bands, bases, groups, w, 3, 1}, pol);
    for (auto [r, c] : {std::pair{1, 1}, {2, 1}, {1, 2}, {2, 2}, {1, 3}}) {
      std::vector<std::pair<SizeType, SizeType>> sz = {{7, 2}, {7, 4}};
      if (r * c < 3 || thorough)
        sz.insert(sz.end(), {{8, 6}, {9, 3}});
      add(0., false, r, c, {sz, bands, bases, groups, {1, 64}, 2 + int(t), 2}, pol);
      if (r * c < 3 || thorough)
        add(0., false, r, c, {{{7, 4}}, {2, 3}, {1, 5}, {2}, {1, 2}, 3, 2, false, true}, pol);
      if (r * c == 2 || thorough)
        add(C(), false, r, c, {{{7, 4}}, bands, bases, {1, 3}, {2}, 1, 1}, pol);
    }
    return s;
  });
}
