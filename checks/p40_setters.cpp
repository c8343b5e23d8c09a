// P40: the functions that set the elements of a matrix give every element its value, independently of the distribution.
#include <cmath>
#include <complex>
#include <map>
#include <vector>

#include <dlaf/matrix/panel.h>
#include <dlaf/util_matrix.h>

#include "algo.hpp"

using namespace algo;
constexpr auto D = Device::CPU;
constexpr auto B = Backend::MC;

namespace {
enum Setter { Element, NoTrans, Trans, ConjTrans, Identity, Zero, ZeroPart, Random, Hermitian, Banded, PosDef, NonZeroDiagonal, NSETTERS };
const char* const names[] = {"set", "set NoTrans", "set Trans", "set ConjTrans", "set_identity", "set0", "set0 of a part", "set_random", "set_random_hermitian", "set_random_hermitian_banded", "set_random_hermitian_positive_definite", "set_random_non_zero_diagonal"};
bool square_only(int s) {
  return s >= Hermitian;
}
template <class T>
T el(SizeType i, SizeType j) {
  return num<T>(double(1 + i + 20 * j), double(i - 2 * j));
}
template <class T>
T before(SizeType i, SizeType j) {
  return num<T>(double(-500 - i - 20 * j), 3);
}
constexpr auto prio = pika::execution::thread_priority::normal;

struct Part {
  LocalTileIndex begin{0, 0};
  LocalTileSize size{0, 0};
};

template <class T>
void call(int setter, Matrix<T, D>& mat, SizeType band, const Part& part) {
  using namespace matrix::util;
  auto f = [](const GlobalElementIndex& ij) { return el<T>(ij.row(), ij.col()); };
  switch (setter) {
    case Element: return set(mat, f);
    case NoTrans: return set(mat, f, blas::Op::NoTrans);
    case Trans: return set(mat, f, blas::Op::Trans);
    case ConjTrans: return set(mat, f, blas::Op::ConjTrans);
    case Identity: return set_identity(mat);
    case Zero: return set0<B>(prio, mat);
    case ZeroPart: return set0<B>(prio, part.begin, part.size, mat);
    case Random: return set_random(mat);
    case Hermitian: return set_random_hermitian(mat);
    case Banded: return set_random_hermitian_banded(mat, band);
    case PosDef: return set_random_hermitian_positive_definite(mat);
    case NonZeroDiagonal: return set_random_non_zero_diagonal(mat);
  }
}

// The elements of random matrices depend on size and tiles only: what a local matrix gets
template <class T>
const Dense<T>& local_result(int setter, SizeType m, SizeType n, SizeType mb, SizeType nb, SizeType band) {
  static std::map<std::vector<SizeType>, Dense<T>> known;
  const std::vector<SizeType> key{setter, m, n, mb, nb, band};
  auto it = known.find(key);
  if (it != known.end())
    return it->second;
  Dense<T> d(m, n);
  // (on a pool of its own schedule: nothing to explore)
  vp::ranks(1, 1, [&](int) {
    Matrix<T, D> mat(Distribution(GlobalElementSize(m, n), GlobalElementSize(mb, nb), TileElementSize(mb, nb), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)));
    call(setter, mat, band, {});
    collect(static_cast<Matrix<const T, D>&>(mat), d);
  });
  return known.emplace(key, d).first->second;
}

template <class T>
void check_values(int setter, const Dense<T>& a, SizeType mb, SizeType nb, SizeType band) {
  using R = BaseType<T>;
  const R eps = R(8) * std::numeric_limits<R>::epsilon();
  auto where = [](SizeType i, SizeType j, T x) { return vp::fmt("element (%ld,%ld) is %s", long(i), long(j), str(x).c_str()); };
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i) {
      const T x = a(i, j);
      switch (setter) {
        case Element:
        case NoTrans: VP_CHECK(x == el<T>(i, j), "%s", where(i, j, x).c_str()); break;
        case Trans: VP_CHECK(x == el<T>(j, i), "%s", where(i, j, x).c_str()); break;
        case ConjTrans: VP_CHECK(x == algo::conj(el<T>(j, i)), "%s", where(i, j, x).c_str()); break;
        case Identity: VP_CHECK(x == T(i == j ? 1 : 0), "%s", where(i, j, x).c_str()); break;
        case Zero: VP_CHECK(x == T(0), "%s", where(i, j, x).c_str()); break;
        case ZeroPart: break;
        default: {
          const bool diagonal = i == j && setter != Random;
          if (diagonal && setter != NonZeroDiagonal) {
            VP_CHECK(std::imag(x) == 0, "the diagonal is not real: %s", where(i, j, x).c_str());
            const R c = setter == PosDef ? R(2 * a.n) : R(0);
            VP_CHECK(std::abs(std::real(x) - c) <= 1 + R(4 * a.n) * eps, "%s", where(i, j, x).c_str());
          }
          else {
            VP_CHECK(std::abs(x) <= 1 + eps, "%s", where(i, j, x).c_str());
            if (diagonal)
              VP_CHECK(std::abs(x) >= R(0.1) * (1 - eps), "%s", where(i, j, x).c_str());
          }
          if (setter == Hermitian || setter == Banded || setter == PosDef) {
            VP_CHECK(x == algo::conj(a(j, i)), "not Hermitian: %s and (%ld,%ld) is %s", where(i, j, x).c_str(), long(j), long(i), str(a(j, i)).c_str());
            if (setter == Banded && std::abs(i - j) > band)
              VP_CHECK(x == T(0), "outside of the band %ld: %s", long(band), where(i, j, x).c_str());
          }
          // nothing is constant: (with the generator in use, equal values do not occur)
          const bool off = setter == Banded && std::abs(i - j) > band;
          if (!off && i > j) {
            VP_CHECK(x != T(0), "not random: %s", where(i, j, x).c_str());
            for (SizeType l = 0; l <= j; ++l)
              for (SizeType k = l + 1; k < (l == j ? i : a.m); ++k)
                if (!(setter == Banded && k - l > band))
                  VP_CHECK(a(k, l) != x, "not random: %s, as (%ld,%ld)", where(i, j, x).c_str(), long(k), long(l));
          }
        }
      }
    }
  (void) mb, (void) nb;
}

template <class T>
void setters(int gr, int gc, SizeType max, SizeType max_tile, bool compare) {
  const int setter = pick(NSETTERS);
  const bool sq = square_only(setter);
  const SizeType m = pick(int(max) + 1), n = sq ? m : pick(int(max) + 1);
  const SizeType mb = 1 + pick(int(max_tile)), nb = sq ? mb : 1 + pick(int(max_tile));
  const SizeType tr = 1 + pick(2), tc = sq ? tr : 1 + pick(2);  // tiles per block
  const SizeType band = setter == Banded ? pick(int(m) + 1) : 0;
  const int sr = pick(gr), sc = pick(gc);
  // a range of tiles, in terms of the most tiles a rank can have
  int r[4] = {};
  if (setter == ZeroPart)
    for (auto& x : r)
      x = pick(3);
  vp::context(vp::fmt("%s of %ldx%ld, tiles of %ldx%ld, %ldx%ld per block, band %ld, grid %dx%d from (%d,%d), part %d %d %d %d", names[setter], long(m), long(n), long(mb), long(nb), long(tr), long(tc), long(band), gr, gc, sr, sc, r[0], r[1], r[2], r[3]));
  vp::pool_reset();
  Dense<T> got(m, n);
  vp::ranks(gr * gc, 2, [&](int rank) {
    const comm::Index2D rk(rank % gr, rank / gr);
    Matrix<T, D> mat(Distribution(GlobalElementSize(m, n), GlobalElementSize(mb * tr, nb * tc), TileElementSize(mb, nb), comm::Size2D(gr, gc), rk, comm::Index2D(sr, sc)));
    fill(mat, before<T>);
    const auto nt = mat.distribution().local_nr_tiles();
    Part part;
    if (setter == ZeroPart) {
      part.begin = LocalTileIndex(std::min<SizeType>(r[0], nt.rows()), std::min<SizeType>(r[1], nt.cols()));
      part.size = LocalTileSize(std::min<SizeType>(r[2], nt.rows() - part.begin.row()), std::min<SizeType>(r[3], nt.cols() - part.begin.col()));
    }
    call(setter, mat, band, part);
    collect(static_cast<Matrix<const T, D>&>(mat), got);
    if (setter == ZeroPart) {
      const auto& d = mat.distribution();
      vp::HbIgnore h;
      for (const auto ij : common::iterate_range2d(nt)) {
        const bool in = ij.row() >= part.begin.row() && ij.row() < part.begin.row() + part.size.rows() && ij.col() >= part.begin.col() && ij.col() < part.begin.col() + part.size.cols();
        const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
        const auto s = d.tile_size_of(d.global_tile_index(ij));
        for (SizeType j = o.col(); j < o.col() + s.cols(); ++j)
          for (SizeType i = o.row(); i < o.row() + s.rows(); ++i)
            VP_CHECK(got(i, j) == (in ? T(0) : before<T>(i, j)), "element (%ld,%ld) is %s, %s the part", long(i), long(j), str(got(i, j)).c_str(), in ? "in" : "outside of");
      }
    }
  });
  check_values(setter, got, mb, nb, band);
  ++vp::n_nontrivial;
  if (setter >= Random && compare && gr * gc * tr * tc > 1) {
    const auto& want = local_result<T>(setter, m, n, mb, nb, band);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        VP_CHECK(got(i, j) == want(i, j), "element (%ld,%ld) is %s, in a local matrix it is %s", long(i), long(j), str(got(i, j)).c_str(), str(want(i, j)).c_str());
  }
}

// set0 of a panel: the tiles in its range
template <class T, Coord C>
void panels(int g) {
  const SizeType n = 1 + pick(4);
  const SizeType from = pick(int(n)), to = from + pick(int(n - from) + 1);
  const int src = pick(g);
  vp::context(vp::fmt("panel of %ld tiles on %d ranks from %d, range [%ld, %ld)", long(n), g, src, long(from), long(to)));
  vp::pool_reset();
  vp::ranks(g, 2, [&](int rank) {
    constexpr bool col = C == Coord::Col;
    const Distribution d(GlobalElementSize(col ? n : 1, col ? 1 : n), GlobalElementSize(1, 1), TileElementSize(1, 1), comm::Size2D(col ? g : 1, col ? 1 : g), comm::Index2D(col ? rank : 0, col ? 0 : rank), comm::Index2D(col ? src : 0, col ? 0 : src));
    matrix::Panel<C, T, D> panel(d);
    auto one = [&] {
      for (const auto ij : panel.iteratorLocal())
        ex::start_detached(panel.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<B>(), [](const matrix::Tile<T, D>& t) { t({0, 0}) = T(7); }));
    };
    panel.setRange({from, from}, {to, to});
    one();
    matrix::util::set0<B>(prio, panel);
    SizeType tiles = 0;
    for (const auto ij : panel.iteratorLocal()) {
      const auto t = tt::sync_wait(panel.read(ij));
      const SizeType k = d.template global_tile_from_local_tile<C == Coord::Col ? Coord::Row : Coord::Col>(col ? ij.row() : ij.col());
      VP_CHECK(k >= from && k < to && t.get()({0, 0}) == T(0), "tile %ld", long(k));
      ++tiles;
    }
    SizeType want = 0;
    for (SizeType k = from; k < to; ++k)
      want += (k + src) % g == rank;
    VP_CHECK(tiles == want, "%ld tiles instead of %ld", long(tiles), long(want));
  });
  ++vp::n_nontrivial;
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P40";
    s.rule = "every setter, sizes, tiles, tiles per block, grids, source ranks, bands and parts within the bound, after writes of other values, under all base schedules (and deviations within the bound); "
             "non-trivial: a matrix got set and compared";
    auto add = [&](auto t, const char* type, int gr, int gc, SizeType max, SizeType tile, int dev, unsigned pol) {
      using T = decltype(t);
      s.cases.push_back(vp::sched_case(vp::fmt("%s %dx%d n<=%ld dev %d", type, gr, gc, long(max), dev), [=] { setters<T>(gr, gc, max, tile, dev == 0); }, dev, pol, false));
    };
    const unsigned P = thorough ? vp::ALL_POLICIES : vp::BASIC_POLICIES;
    using Z = std::complex<double>;
    using C = std::complex<float>;
    add(double(), "double", 1, 1, thorough ? 7 : 5, 3, 0, P);
    add(Z(), "complex double", 1, 1, thorough ? 7 : 4, 3, 0, P);
    add(float(), "float", 1, 1, thorough ? 5 : 4, 2, 0, P);
    add(C(), "complex float", 1, 1, thorough ? 5 : 4, 2, 0, P);
    add(Z(), "complex double", 2, 1, 4, 2, 0, P);
    add(Z(), "complex double", 1, 2, 4, 2, 0, P);
    add(double(), "double", 2, 2, 4, 2, 0, P);
    if (thorough) {
      add(Z(), "complex double", 3, 2, 5, 2, 0, vp::BASIC_POLICIES);
      add(double(), "double", 2, 2, 6, 3, 0, vp::BASIC_POLICIES);
    }
    add(double(), "double", 1, 1, 2, 1, thorough ? 2 : 1, P);
    for (int g = 1; g <= (thorough ? 3 : 2); ++g) {
      s.cases.push_back(vp::sched_case(vp::fmt("column panel on %d", g), [=] { panels<double, Coord::Col>(g); }, thorough, P, false));
      s.cases.push_back(vp::sched_case(vp::fmt("row panel on %d", g), [=] { panels<double, Coord::Row>(g); }, thorough, P, false));
    }
    s.samples = {"set_random_hermitian of 4x4 in tiles of 2x2 on 2x1 ranks: the elements a local matrix gets, conjugated across the diagonal",
                 "set_random_hermitian_banded with band 0: everything off the diagonal is zero"};
    return s;
  });
}
