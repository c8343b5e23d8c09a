// P45: matrices in HDF5 files are the matrices that were written, whatever the distributions of writer and reader; the files
// that algorithms dump hold their inputs and outputs. HDF5 itself is replaced by rt/hdf5.
#include <map>
#include <optional>

#include <dlaf/matrix/hdf5.h>

#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>

#include "algo.hpp"
#include "p45.hpp"


namespace {
// ---- dumps ----------------------------------------------------------------------------------------
enum Algorithm { Chol, InvChol, TriInv, GenToStd, RedToBand, BandToTri, Tridiag, Eig, GenEig, GenEigFactorized, NALGORITHMS };
const char* const names[] = {"Cholesky", "inverse from Cholesky factor", "triangular inverse", "generalized to standard", "reduction to band", "band to tridiagonal", "tridiagonal solver", "eigensolver", "generalized eigensolver", "generalized eigensolver, factorized"};

void dump(int which, bool on) {
  auto& t = dlaf::getTuneParameters();
  vp::HbIgnore h;
  bool* const p[] = {&t.debug_dump_cholesky_factorization_data, &t.debug_dump_inverse_from_cholesky_factor_data, &t.debug_dump_triangular_inverse_data, &t.debug_dump_generalized_to_standard_data,
                     &t.debug_dump_reduction_to_band_data, &t.debug_dump_band_to_tridiagonal_data, &t.debug_dump_tridiag_solver_data, &t.debug_dump_eigensolver_data, &t.debug_dump_generalized_eigensolver_data};
  for (int k = 0; k < 9; ++k)
    if (which < 0 || k == std::min(which, int(GenEig)))
      *p[k] = on;
}

struct Call {
  std::vector<Raw> sets;
  SizeType unused = -1;  // element that has no value
};

// Calls the algorithm on all ranks; what a dump of it has to be
template <class T>
void call(int algorithm, Place p, blas::Uplo uplo, SizeType n, SizeType nb, int sr, int sc, int seed, std::vector<Dense<T>>& res, std::vector<Dense<BaseType<T>>>& real, Call& c, bool first) {
  using R = BaseType<T>;
  auto& grid = *p.grid;
  const auto l = lower_factor<T>(n, seed), herm = hermitian<T>(n, seed + 1);
  const auto spd = l * adj(l);
  const auto lower = blas::Uplo::Lower;
  auto in = [&](const auto& a) {
    vp::HbIgnore h;
    if (first)
      c.sets.push_back(raw(a));
  };
  auto in_not_dumped = [&] {
    vp::HbIgnore h;
    c.sets.clear();
  };
  auto make = [&](const Dense<T>& a) {
    auto m = p.make<T>(n, n, nb, nb, sr, sc);
    fill(m, a);
    in(a);
    return m;
  };
  auto evals = [&] { return Matrix<R, D>(LocalElementSize(n, 1), TileElementSize(nb, 1)); };
  switch (algorithm) {
    case Chol: {
      auto a = make(stored(spd, lower));
      cholesky_factorization<B, D, T>(grid, lower, a);
      return collect<T>(a, res[0]);
    }
    case InvChol:
    case TriInv: {
      // (the dump of the former starts with the inverse of the factor)
      auto a = make(stored(uplo == lower ? l : adj(l), uplo));
      if (algorithm == InvChol)
        in_not_dumped(), inverse_from_cholesky_factor<B, D, T>(grid, uplo, a);
      else
        triangular_inverse<B, D, T>(grid, uplo, blas::Diag::NonUnit, a);
      return collect<T>(a, res[0]);
    }
    case GenToStd: {
      auto a = make(stored(l * herm * adj(l), lower)), b = make(stored(l, lower));
      eigensolver::internal::generalized_to_standard<B, D, T>(grid, lower, a, b);
      return collect<T>(a, res[0]);
    }
    case RedToBand: {
      auto a = make(stored(herm, lower));
      auto taus = eigensolver::internal::reduction_to_band<B>(grid, a, nb);
      return collect<T>(a, res[0]);
    }
    case BandToTri: {
      auto a = make(stored(Dense<T>(n, n, [&](SizeType i, SizeType j) { return std::abs(i - j) <= nb ? herm(i, j) : T(0); }), lower));
      auto r = eigensolver::internal::band_to_tridiagonal<B, D, T>(grid, lower, nb, a);
      return collect<R>(r.tridiagonal, real[0]);
    }
    case Tridiag: {
      Matrix<R, D> tri(LocalElementSize(n, 2), TileElementSize(nb, 2));
      const Dense<R> t(n, 2, [&](SizeType i, SizeType j) { return R(j ? 1 + (i + seed) % 2 : (3 * i + seed) % 5); });
      fill(tri, t);
      in(t);
      auto v = evals();
      auto z = p.make<R>(n, n, nb, nb, sr, sc);
      eigensolver::internal::tridiagonal_eigensolver<B, D, R>(grid, tri, v, z);
      collect<R>(v, real[0]);
      return collect<R>(z, real[1]);
    }
    case Eig: {
      auto a = make(stored(herm, lower)), z = p.make<T>(n, n, nb, nb, sr, sc);
      auto v = evals();
      hermitian_eigensolver<B, D, T>(grid, lower, a, v, z);
      collect<R>(v, real[0]);
      return collect<T>(z, res[0]);
    }
    default: {
      auto a = make(stored(herm, lower)), b = make(stored(algorithm == GenEig ? spd : l, lower)), z = p.make<T>(n, n, nb, nb, sr, sc);
      auto v = evals();
      if (algorithm == GenEig)
        hermitian_generalized_eigensolver<B, D, T>(grid, lower, a, b, v, z);
      else
        hermitian_generalized_eigensolver_factorized<B, D, T>(grid, lower, a, b, v, z);
      collect<R>(v, real[0]);
      return collect<T>(z, res[0]);
    }
  }
}

template <class T>
void dumps(int algorithm, int gr, int gc, SizeType max, SizeType max_nb, bool variants) {
  using R = BaseType<T>;
  const bool all = variants && pick(2);
  const bool band = algorithm == BandToTri || algorithm == RedToBand || algorithm >= Eig;
  const auto uplo = (algorithm == InvChol || algorithm == TriInv) && pick(2) ? blas::Uplo::Upper : blas::Uplo::Lower;
  const SizeType nb = band ? 2 + pick(int(max_nb - 1)) : 1 + pick(int(max_nb));
  const SizeType n[2] = {1 + pick(int(max)), variants ? 1 + pick(int(max)) : max};
  const int sr = pick(gr), sc = pick(gc);
  vp::context(vp::fmt("dumps of %s %s %s, %ldx%ld and %ldx%ld in blocks of %ld, grid %dx%d from (%d,%d)%s", names[algorithm], type_name<T>(), name(uplo), n[0], n[0], n[1], n[1], nb, gr, gc, sr, sc, all ? ", all dumps" : ""));
  start();
  std::vector<Dense<T>> res[2][2];
  std::vector<Dense<R>> real[2][2];
  Call c[2];
  for (int with = 1; with >= 0; --with) {
    for (int k = 0; k < 2; ++k) {
      if (algorithm == BandToTri)
        c[k].unused = 2 * n[k] - 1;
      if (algorithm != BandToTri && algorithm != Tridiag)
        res[with][k] = {Dense<T>(n[k], n[k])};
      if (algorithm == BandToTri)
        real[with][k] = {Dense<R>(n[k], 2)};
      else if (algorithm >= Tridiag)
        real[with][k] = {Dense<R>(n[k], 1)};
      if (algorithm == Tridiag)
        real[with][k].emplace_back(n[k], n[k]);
    }
    if (with)
      dump(all ? -1 : algorithm, true);
    on(false, gr, gc, [&](Place p) {
      tune({});
      for (int k = 0; k < 2; ++k)
        call<T>(algorithm, p, uplo, n[k], nb, sr, sc, 3 * k, res[with][k], real[with][k], c[k], with && vp::current_rank() == 0);
    });
    dump(-1, false);
    if (with)
      vp::h5::check_end();
    else
      VP_CHECK(vp::h5::files().empty(), "a file was written although no dump was requested");
    if (!with)
      break;
    std::set<std::string> used;
    for (int k = 0; k < 2; ++k) {
      for (const auto& x : res[1][k])
        c[k].sets.push_back(raw(x));
      for (const auto& x : real[1][k])
        c[k].sets.push_back(raw(x));
      bool found = false;
      std::string last = "there is none";
      for (const auto& f : vp::h5::files()) {
        if (found || used.count(f.first) || f.second->sets.size() != c[k].sets.size() + (algorithm == InvChol))
          continue;
        std::set<std::string> hits;
        for (const auto& want : c[k].sets)
          for (const auto& d : f.second->sets)
            if (!hits.count(d.first) && d.second->type == type_of<T>() && want.is(*d.second, &want == &c[k].sets.back() ? c[k].unused : -1)) {
              hits.insert(d.first);
              break;
            }
        found = hits.size() == c[k].sets.size();
        if (found)
          used.insert(f.first);
        else {
          last = vp::fmt("%zu of the %zu data sets of %s are", hits.size(), c[k].sets.size(), f.first.c_str());
          for (const auto& d : f.second->sets)
            if (!hits.count(d.first))
              last += ", not " + d.first;
        }
      }
      VP_CHECK(found, "no file has the input and the output of call %d (%s)", k, last.c_str());
    }
    VP_CHECK(all || vp::h5::files().size() == 2, "%zu files for 2 calls", vp::h5::files().size());
    start();
  }
  for (int k = 0; k < 2; ++k) {
    for (std::size_t x = 0; x < res[0][k].size(); ++x)
      VP_CHECK(res[0][k][x].v == res[1][k][x].v, "the result of call %d depends on the dump", k);
    for (std::size_t x = 0; x < real[0][k].size(); ++x) {
      auto &u = real[0][k][x].v, &v = real[1][k][x].v;
      if (c[k].unused >= 0)
        u.back() = v.back() = 0;
      VP_CHECK(u == v, "the result of call %d depends on the dump", k);
    }
  }
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P45";
    s.rule = "all kinds of files, sizes, tiles, tiles per block, grids, source ranks and layouts within the bound, and two dumped calls of each algorithm, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: data sets were compared element by element, as stored and as read";
    using matrix::internal::FileHDF5;
    using C = std::complex<float>;
    using Z = std::complex<double>;
    const unsigned basic = vp::BASIC_POLICIES, two = thorough ? unsigned(vp::ALL_POLICIES) : LIFO_EAGER, one = thorough ? basic : JUST_LIFO;
    auto add = [&](auto zero, int gr, int gc, SizeType max, SizeType tile, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("files of %s, grid %dx%d, up to %ldx%ld in tiles up to %ld, %d deviations", type_name<T>(), gr, gc, max, max, tile, dev), [=] { files<T, FileHDF5>(gr, gc, max, tile); }, dev, pol, thorough, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    const SizeType t = thorough;
    add(0., 1, 1, 2 + t, 2, 0, one, true);
    add(0., 2, 1, 3, 1, 0, one, true);
    add(0., 1, 2, 3, 1, 0, one, true);
    add(Z{}, 2, 1, 2 + t, 2, 0, JUST_LIFO, false);
    add(Z{}, 1, 2, 2 + t, 2, 0, JUST_LIFO, false);
    add(0.f, 2, 2, 2, 1, 0, JUST_EAGER, false);
    add(C{}, 1, 1, 2, 1, 0, two, true);
    add(0., 2, 1, 1, 1, 1, JUST_LIFO, true);
    auto release = vp::sched_case("files of double without assertions, grid 2x1", [] { files_release(2, 1); }, 0, one, thorough, false);
    s.cases.push_back(release);
    auto calls = [&](int a, auto zero, int gr, int gc, SizeType max, SizeType nb, bool variants, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      auto k = vp::sched_case(vp::fmt("dumps of %s, %s, grid %dx%d, up to %ld in blocks up to %ld, %d deviations", names[a], type_name<T>(), gr, gc, max, nb, dev), [=] { dumps<T>(a, gr, gc, max, nb, variants); }, dev, pol, thorough, hb);
      k.split = 8;
      s.cases.push_back(k);
    };
    for (int a = 0; a < NALGORITHMS; ++a) {
      const bool band = a == BandToTri || a == RedToBand || a >= Eig;
      calls(a, 0., 2, 1, band ? 5 : 4, band ? 3 : 2, true, 0, one, true);
      calls(a, 0., 1, 2, band ? 5 : 4, band ? 3 : 2, true, 0, one, true);
      calls(a, 0.f, 2, 2, 3 + t, 2, false, 0, JUST_LIFO, false);
      if (a != Tridiag) {
        calls(a, Z{}, 1, 2, 4, 2, false, 0, one, false);
        calls(a, C{}, 2, 1, 3, 2, false, 0, JUST_EAGER, false);
      }
      if (thorough || a == Chol || a == GenToStd || a == TriInv)
        calls(a, 0., 2, 1, 2, band ? 2 : 1, false, 1, JUST_LIFO, true);
    }
    s.samples = {"a 3x2 matrix of complex numbers in tiles of 2x1 on a grid of 2x1 ranks, written to a parallel file and read on a grid with another source rank",
                 "two calls of the tridiagonal solver on matrices of one tile with dumps: two files"};
    return s;
  });
}
