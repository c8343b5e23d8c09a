// Helpers for the checks of the algorithms: small matrices with values for which every operation of the algorithm is exact
// (integers, divisions by powers of two), so that results can be compared bit by bit with a dense reference, whatever the
// order of operations.
#pragma once
#include <algorithm>
#include <complex>
#include <functional>
#include <memory>
#include <string>
#include <vector>

#include <blas.hh>

#include <pika/execution.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf/matrix/copy_tile.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/sender/transform.h>
#include <dlaf/tune.h>
#include <dlaf/types.h>

#include "sched.hpp"

namespace algo {
using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using matrix::Distribution;
using matrix::Matrix;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using vp::pick;

template <class T>
T conj(T x) {
  if constexpr (isComplex_v<T>)
    return std::conj(x);
  else
    return x;
}
template <class T>
T num(double re, double im) {
  if constexpr (isComplex_v<T>)
    return T(BaseType<T>(re), BaseType<T>(im));
  else
    return T(re);
}
template <class T>
std::string str(T x) {
  if constexpr (isComplex_v<T>)
    return vp::fmt("(%.9g,%.9g)", double(x.real()), double(x.imag()));
  else
    return vp::fmt("%.9g", double(x));
}

template <class T>
struct Dense {
  SizeType m = 0, n = 0;
  std::vector<T> v;
  Dense() = default;
  Dense(SizeType m, SizeType n) : m(m), n(n), v(to_sizet(m * n)) {}
  template <class F>
  Dense(SizeType m, SizeType n, F&& f) : Dense(m, n) {
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        (*this)(i, j) = f(i, j);
  }
  T& operator()(SizeType i, SizeType j) {
    return v[to_sizet(i + j * m)];
  }
  const T& operator()(SizeType i, SizeType j) const {
    return v[to_sizet(i + j * m)];
  }
};
template <class T>
Dense<T> operator*(const Dense<T>& a, const Dense<T>& b) {
  Dense<T> c(a.m, b.n);
  for (SizeType j = 0; j < b.n; ++j)
    for (SizeType k = 0; k < a.n; ++k)
      for (SizeType i = 0; i < a.m; ++i)
        c(i, j) += a(i, k) * b(k, j);
  return c;
}
template <class T>
Dense<T> operator*(T s, const Dense<T>& a) {
  return Dense<T>(a.m, a.n, [&](SizeType i, SizeType j) { return s * a(i, j); });
}
template <class T>
Dense<T> operator+(const Dense<T>& a, const Dense<T>& b) {
  return Dense<T>(a.m, a.n, [&](SizeType i, SizeType j) { return a(i, j) + b(i, j); });
}
template <class T>
Dense<T> apply(blas::Op op, const Dense<T>& a) {
  if (op == blas::Op::NoTrans)
    return a;
  return Dense<T>(a.n, a.m, [&](SizeType i, SizeType j) { return op == blas::Op::Trans ? a(j, i) : conj(a(j, i)); });
}
template <class T>
Dense<T> adj(const Dense<T>& a) {
  return apply(blas::Op::ConjTrans, a);
}

// whether element (i,j) belongs to the part of a matrix that gets referenced
inline bool in(blas::Uplo uplo, SizeType i, SizeType j) {
  return uplo == blas::Uplo::General || (uplo == blas::Uplo::Lower ? i >= j : i <= j);
}

// Where the matrices live: without a grid (local algorithms) or on all ranks of a grid
struct Place {
  CommunicatorGrid* grid = nullptr;
  std::shared_ptr<std::vector<std::function<void()>>> memory = nullptr;  // checks of it
  template <class T>
  Matrix<T, Device::CPU> make(SizeType m, SizeType n, SizeType mb, SizeType nb, int src_row = 0, int src_col = 0, bool tiles = false, SizeType tiles_per_row = 1, SizeType tiles_per_col = 1) const {
    const GlobalElementSize block(tiles_per_row * mb, tiles_per_col * nb);
    const Distribution dist = grid ? Distribution({m, n}, block, {mb, nb}, grid->size(), grid->rank(), {src_row, src_col}) : Distribution({m, n}, block, {mb, nb}, {1, 1}, {0, 0}, {0, 0});
    const auto sp = spec(tiles);
    if (tiles || !memory || (layouts + 3 * count) % 5)
      return Matrix<T, Device::CPU>(dist, sp);
    // in memory of the caller, with elements between the columns and around the matrix that do not belong to it
    vp::HbIgnore h;
    const SizeType lm = dist.local_size().rows(), ln = dist.local_size().cols(), ld = std::max<SizeType>(1, lm) + count % 3, before = count % 2;
    auto buf = std::make_shared<std::vector<T>>(to_sizet(before + ld * ln + 2), T(-777));
    memory->push_back([=] {
      for (SizeType k = 0; k < SizeType(buf->size()); ++k)
        if (const SizeType e = k - before; e < 0 || e / ld >= ln || e % ld >= lm)
          VP_CHECK((*buf)[to_sizet(k)] == T(-777), "memory outside of the matrix was changed (local size %ldx%ld, leading dimension %ld, at %ld)", lm, ln, ld, e);
    });
    return Matrix<T, Device::CPU>(matrix::ColMajorLayout(dist, ld), buf->data() + before);
  }
  // How the matrices are stored and in which order ranks are in the grid must not matter: the layouts of the matrices,
  // and of those that algorithms create, and the order vary with the input
  unsigned layouts = 0;
  mutable unsigned count = 0;
  matrix::AllocationSpec spec(bool tiles) const {
    const unsigned k = layouts / (count % 2 ? 3 : 1) % 3;
    ++count;
    return matrix::AllocationSpec(tiles ? matrix::AllocationLayout::Tiles : matrix::AllocationLayout(k));
  }
};
inline unsigned pick_layouts() {
  std::string c = vp::context();
  c.erase(std::min(c.size(), c.find(" [layouts")));
  unsigned h = 2166136261u;
  for (const char x : c)
    h = (h ^ static_cast<unsigned char>(x)) * 16777619u;
  h = (h >> 8) % 27;
  vp::context(c + vp::fmt(" [layouts %u]", h));
  return h;
}

// Posts tasks that set the elements of the matrix
template <class T, class F>
void fill(Matrix<T, Device::CPU>& mat, F f) {
  const auto& d = mat.distribution();
  for (const auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
    ex::start_detached(mat.readwrite(ij) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [=](const matrix::Tile<T, Device::CPU>& t) {
                         for (SizeType j = 0; j < t.size().cols(); ++j)
                           for (SizeType i = 0; i < t.size().rows(); ++i)
                             t({i, j}) = f(o.row() + i, o.col() + j);
                       }));
  }
}
template <class T, class F>
void expect(Matrix<const T, Device::CPU>& mat, const char* what, F f) {
  const auto& d = mat.distribution();
  for (const auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
    auto t = tt::sync_wait(mat.read(ij));
    for (SizeType j = 0; j < t.get().size().cols(); ++j)
      for (SizeType i = 0; i < t.get().size().rows(); ++i) {
        const T want = f(o.row() + i, o.col() + j), got = t.get()({i, j});
        VP_CHECK(got == want, "%s: element (%ld,%ld) is %s instead of %s", what, o.row() + i, o.col() + j, str(got).c_str(), str(want).c_str());
      }
  }
}
// the elements in the referenced part are those of want, the others those they have been set to
template <class T>
T untouched(SizeType i, SizeType j) {
  return num<T>(double(100 + i + 10 * j), -7);
}
template <class T>
void fill(Matrix<T, Device::CPU>& mat, const Dense<T>& a, blas::Uplo uplo = blas::Uplo::General) {
  vp::HbIgnore h;
  auto p = std::make_shared<const Dense<T>>(a);
  fill(mat, [p, uplo](SizeType i, SizeType j) { return in(uplo, i, j) ? (*p)(i, j) : untouched<T>(i, j); });
}
template <class T>
void expect(Matrix<const T, Device::CPU>& mat, const char* what, const Dense<T>& a, blas::Uplo uplo = blas::Uplo::General) {
  expect(mat, what, [&](SizeType i, SizeType j) { return in(uplo, i, j) ? a(i, j) : untouched<T>(i, j); });
}

// What is stored in a matrix of which only a triangle (possibly without the diagonal) is referenced
template <class T>
Dense<T> stored(const Dense<T>& a, blas::Uplo uplo, blas::Diag diag = blas::Diag::NonUnit) {
  return Dense<T>(a.m, a.n, [&](SizeType i, SizeType j) { return in(uplo, i, j) && (i != j || diag == blas::Diag::NonUnit) ? a(i, j) : untouched<T>(i, j); });
}

// Copies the elements of the matrix into out, to be called on all ranks
template <class T>
void collect(Matrix<const T, Device::CPU>& mat, Dense<T>& out) {
  const auto& d = mat.distribution();
  for (const auto ij : common::iterate_range2d(d.local_nr_tiles())) {
    const auto o = d.global_element_index(d.global_tile_index(ij), {0, 0});
    auto t = tt::sync_wait(mat.read(ij));
    for (SizeType j = 0; j < t.get().size().cols(); ++j)
      for (SizeType i = 0; i < t.get().size().rows(); ++i) {
        const T x = t.get()({i, j});
        vp::HbIgnore h;
        out(o.row() + i, o.col() + j) = x;
      }
  }
}

// Arithmetic of the references: extended precision
template <class T>
Dense<std::complex<long double>> wide(const Dense<T>& a) {
  return Dense<std::complex<long double>>(a.m, a.n, [&](SizeType i, SizeType j) {
    return std::complex<long double>((long double) std::real(a(i, j)), (long double) std::imag(a(i, j)));
  });
}
using DenseW = Dense<std::complex<long double>>;
inline DenseW identity(SizeType n) {
  return DenseW(n, n, [](SizeType i, SizeType j) { return std::complex<long double>(i == j ? 1 : 0); });
}
// largest difference; infinite if any value is not finite
inline long double difference(const DenseW& a, const DenseW& b) {
  long double d = 0;
  for (SizeType j = 0; j < a.n; ++j)
    for (SizeType i = 0; i < a.m; ++i) {
      const long double e = std::abs(a(i, j) - b(i, j));
      if (!(e < 1e300L))
        return 1e300L;
      d = std::max(d, e);
    }
  return d;
}
inline long double max_abs(const DenseW& a) {
  return difference(a, DenseW(a.m, a.n));
}
// Householder transformation I - tau v v^H
inline DenseW householder(const std::vector<std::complex<long double>>& v, std::complex<long double> tau) {
  const SizeType n = SizeType(v.size());
  return DenseW(n, n, [&](SizeType i, SizeType j) { return (i == j ? 1.0L : 0.0L) - tau * v[to_sizet(i)] * std::conj(v[to_sizet(j)]); });
}
template <class T>
std::uint64_t hash(const Dense<T>& a, std::uint64_t h = 1469598103934665603ull) {
  return vp::hash_bytes(a.v.data(), a.v.size() * sizeof(T), h);
}

// Parameters of the algorithms, to be set on every rank
struct Tune {
  std::size_t panel = 1, tfactor = 1, rank1 = 1;
  SizeType min_band = 100, b2t_block = 8192, apply_group = 64;
};
inline void tune(const Tune& t) {
  auto& p = dlaf::getTuneParameters();
  vp::HbIgnore h;
  p.red2band_panel_num_threads = t.panel;
  p.tfactor_num_threads = t.tfactor;
  p.tridiag_rank1_num_threads = t.rank1;
  p.eigensolver_min_band = t.min_band;
  p.band_to_tridiag_1d_block_size_base = t.b2t_block;
  p.bt_band_to_tridiag_hh_apply_group_size = t.apply_group;
}

// Runs f on a grid (or, if local, without one) with the oracles for what gets left behind
template <class F>
void on(bool local, int gr, int gc, F f, int threads = 2, bool limit_workers = false, common::Ordering o = common::Ordering::ColumnMajor) {
  const unsigned layouts = pick_layouts();
  vp::pool_reset();
  dlaf::getTuneParameters().default_allocation_layout = matrix::AllocationLayout(layouts / 9);
  dlaf::getTuneParameters().communicator_grid_num_pipelines = 2 + layouts % 3;
  if (layouts / 2 % 2)
    o = common::Ordering::RowMajor;
  std::vector<std::shared_ptr<std::vector<std::function<void()>>>> memory(to_sizet(gr * gc));
  for (auto& m : memory)
    m = std::make_shared<std::vector<std::function<void()>>>();
  vp::ranks(gr * gc, threads, [&](int rank) {
    const auto& mem = memory[to_sizet(rank)];
    if (local) {
      f(Place{nullptr, mem, layouts});
    }
    else {
      CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, o);
      f(Place{&grid, mem, layouts});
      grid.wait_all_communicators();
    }
  }, limit_workers);
  dlaf::getTuneParameters().default_allocation_layout = matrix::AllocationLayout::ColMajor;
  dlaf::getTuneParameters().communicator_grid_num_pipelines = 3;
  for (const auto& m : memory)
    for (const auto& check : *m)
      check();
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

// Lower triangular factor with a positive diagonal of powers of two
template <class T>
Dense<T> lower_factor(SizeType n, int seed) {
  return Dense<T>(n, n, [=](SizeType i, SizeType j) -> T {
    if (i < j)
      return T(0);
    if (i == j)
      return T((i + seed) % 3 == 0 ? 2 : 1);
    const int a = int((3 * i + 5 * j + seed) % 5) - 2, b = int((2 * i + j + 2 * seed) % 3) - 1;
    return num<T>(a, b);
  });
}
// Triangular matrix with a diagonal of powers of two (or ones)
template <class T>
Dense<T> triangular(SizeType n, blas::Uplo uplo, blas::Diag diag, int seed) {
  return Dense<T>(n, n, [=](SizeType i, SizeType j) -> T {
    if (!in(uplo, i, j))
      return T(0);
    if (i == j) {
      if (diag == blas::Diag::Unit)
        return T(1);
      const int k = int(i + seed) % 3;
      if (isComplex_v<T> && k == 1)
        return num<T>(0, 2);
      return T(k == 0 ? 2 : k == 1 ? -1 : 1);
    }
    const int a = int((3 * i + 5 * j + seed) % 5) - 2, b = int((2 * i + j + 2 * seed) % 3) - 1;
    return num<T>(a, b);
  });
}
template <class T>
Dense<T> general(SizeType m, SizeType n, int seed) {
  return Dense<T>(m, n, [=](SizeType i, SizeType j) -> T { return num<T>(int((7 * i + 3 * j + i * j + seed) % 7) - 3, int((i + 4 * j + seed) % 5) - 2); });
}
template <class T>
Dense<T> hermitian(SizeType n, int seed) {
  const auto g = general<T>(n, n, seed);
  return Dense<T>(n, n, [&](SizeType i, SizeType j) -> T { return i == j ? T(std::real(g(i, i))) : i > j ? g(i, j) : conj(g(j, i)); });
}

inline const char* name(blas::Uplo u) {
  return u == blas::Uplo::Lower ? "lower" : u == blas::Uplo::Upper ? "upper" : "general";
}
inline const char* name(blas::Diag d) {
  return d == blas::Diag::Unit ? "unit" : "non-unit";
}
inline const char* name(blas::Side s) {
  return s == blas::Side::Left ? "left" : "right";
}
inline const char* name(blas::Op o) {
  return o == blas::Op::NoTrans ? "N" : o == blas::Op::Trans ? "T" : "C";
}
template <class T>
const char* type_name() {
  return std::is_same_v<T, float> ? "float" : std::is_same_v<T, double> ? "double" : std::is_same_v<T, std::complex<float>> ? "complex<float>" : "complex<double>";
}

constexpr unsigned LIFO_EAGER = (1u << vp::LIFO) | (1u << vp::EAGER), JUST_LIFO = 1u << vp::LIFO, JUST_EAGER = 1u << vp::EAGER;
}
