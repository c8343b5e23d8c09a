// P39: the C and ScaLAPACK interfaces of the inverse and of the eigensolvers compute in the arrays of the caller what they
// are documented to compute.
#include <dlaf_c/desc.h>
#include <dlaf_c/utils.h>

#include "c_api.hpp"
#include "eigen.hpp"

using namespace algo;
using Cf = std::complex<float>;
using Cd = std::complex<double>;
using Range = SizeType;

#define RANKS(ret, name, ...)                 \
  extern "C" ret name##__r0(__VA_ARGS__);     \
  extern "C" ret name##__r1(__VA_ARGS__);     \
  extern "C" ret name##__r2(__VA_ARGS__);     \
  extern "C" ret name##__r3(__VA_ARGS__);
RANKS(int, dlaf_create_grid, MPI_Comm, int, int, char)
RANKS(void, dlaf_free_grid, int)

#define D DLAF_descriptor
#define I const int*
// letter, name of the kind of matrix, prefixes of the ScaLAPACK names, types
#define TYPE(x, kind, ev, gv, T, R)                                                                                                      \
  RANKS(int, dlaf_inverse_from_cholesky_factor_##x, int, char, T*, D)                                                                    \
  RANKS(void, dlaf_p##x##potri, char, int, T*, int, int, I, int*)                                                                        \
  RANKS(int, dlaf_##kind##_eigensolver_##x, int, char, T*, D, R*, T*, D)                                                                 \
  RANKS(int, dlaf_##kind##_eigensolver_partial_spectrum_##x, int, char, T*, D, R*, T*, D, Range, Range)                                  \
  RANKS(int, dlaf_##kind##_generalized_eigensolver_##x, int, char, T*, D, T*, D, R*, T*, D)                                              \
  RANKS(int, dlaf_##kind##_generalized_eigensolver_partial_spectrum_##x, int, char, T*, D, T*, D, R*, T*, D, Range, Range)               \
  RANKS(int, dlaf_##kind##_generalized_eigensolver_factorized_##x, int, char, T*, D, T*, D, R*, T*, D)                                   \
  RANKS(int, dlaf_##kind##_generalized_eigensolver_partial_spectrum_factorized_##x, int, char, T*, D, T*, D, R*, T*, D, Range, Range)    \
  RANKS(void, dlaf_p##x##ev, char, int, T*, int, int, I, R*, T*, int, int, I, int*)                                                      \
  RANKS(void, dlaf_p##x##ev##_partial_spectrum, char, int, T*, int, int, I, R*, T*, int, int, I, Range, Range, int*)                     \
  RANKS(void, dlaf_p##x##gv, char, int, T*, int, int, I, T*, int, int, I, R*, T*, int, int, I, int*)                                     \
  RANKS(void, dlaf_p##x##gv##_partial_spectrum, char, int, T*, int, int, I, T*, int, int, I, R*, T*, int, int, I, Range, Range, int*)    \
  RANKS(void, dlaf_p##x##gv##_factorized, char, int, T*, int, int, I, T*, int, int, I, R*, T*, int, int, I, int*)                        \
  RANKS(void, dlaf_p##x##gv##_partial_spectrum_factorized, char, int, T*, int, int, I, T*, int, int, I, R*, T*, int, int, I, Range, Range, int*) \
  template <>                                                                                                                            \
  struct Names<T> {                                                                                                                      \
    static int inverse(int c, char u, T* a, D d) {                                                                                       \
      return CALL(dlaf_inverse_from_cholesky_factor_##x)(c, u, a, d);                                                                    \
    }                                                                                                                                    \
    static void potri(char u, int n, T* a, I d, int* info) {                                                                             \
      CALL(dlaf_p##x##potri)(u, n, a, 1, 1, d, info);                                                                                    \
    }                                                                                                                                    \
    static int solve(int kind_, bool part, Range end, int c, char u, T* a, D da, T* b, D db, R* w, T* z, D dz) {                         \
      if (kind_ == 0)                                                                                                                    \
        return part ? CALL(dlaf_##kind##_eigensolver_partial_spectrum_##x)(c, u, a, da, w, z, dz, 0, end)                                \
                    : CALL(dlaf_##kind##_eigensolver_##x)(c, u, a, da, w, z, dz);                                                        \
      if (kind_ == 1)                                                                                                                    \
        return part ? CALL(dlaf_##kind##_generalized_eigensolver_partial_spectrum_##x)(c, u, a, da, b, db, w, z, dz, 0, end)             \
                    : CALL(dlaf_##kind##_generalized_eigensolver_##x)(c, u, a, da, b, db, w, z, dz);                                     \
      return part ? CALL(dlaf_##kind##_generalized_eigensolver_partial_spectrum_factorized_##x)(c, u, a, da, b, db, w, z, dz, 0, end)    \
                  : CALL(dlaf_##kind##_generalized_eigensolver_factorized_##x)(c, u, a, da, b, db, w, z, dz);                            \
    }                                                                                                                                    \
    static void psolve(int kind_, bool part, Range end, char u, int n, T* a, I da, T* b, I db, R* w, T* z, I dz, int* info) {            \
      if (kind_ == 0)                                                                                                                    \
        part ? CALL(dlaf_p##x##ev##_partial_spectrum)(u, n, a, 1, 1, da, w, z, 1, 1, dz, 1, end, info)                                   \
             : CALL(dlaf_p##x##ev)(u, n, a, 1, 1, da, w, z, 1, 1, dz, info);                                                             \
      else if (kind_ == 1)                                                                                                               \
        part ? CALL(dlaf_p##x##gv##_partial_spectrum)(u, n, a, 1, 1, da, b, 1, 1, db, w, z, 1, 1, dz, 1, end, info)                      \
             : CALL(dlaf_p##x##gv)(u, n, a, 1, 1, da, b, 1, 1, db, w, z, 1, 1, dz, info);                                                \
      else                                                                                                                               \
        part ? CALL(dlaf_p##x##gv##_partial_spectrum_factorized)(u, n, a, 1, 1, da, b, 1, 1, db, w, z, 1, 1, dz, 1, end, info)           \
             : CALL(dlaf_p##x##gv##_factorized)(u, n, a, 1, 1, da, b, 1, 1, db, w, z, 1, 1, dz, info);                                   \
    }                                                                                                                                    \
  };
template <class T>
struct Names;
TYPE(s, symmetric, syevd, sygvd, float, float)
TYPE(d, symmetric, syevd, sygvd, double, double)
TYPE(c, hermitian, heevd, hegvd, Cf, float)
TYPE(z, hermitian, heevd, hegvd, Cd, double)
#undef D
#undef I

struct Bound {
  int min, max;
  std::vector<int> blocks;
  bool all_ranges = true, sources = true, orders = true;
  std::vector<int> kinds = {0, 1, 2};  // standard, generalized, with a factor
};

// The array of this rank
template <class T>
struct Local {
  std::vector<int> rows, cols;
  int ld;
  std::vector<T> v;
  Local(int n, int nb, int gr, int gc, int pr, int pc, int isrc, int jsrc, int pad) {
    for (int i = 0; i < n; ++i) {
      if ((i / nb + isrc) % gr == pr)
        rows.push_back(i);
      if ((i / nb + jsrc) % gc == pc)
        cols.push_back(i);
    }
    ld = std::max<int>(1, int(rows.size())) + pad;
    v.assign(std::size_t(ld) * (cols.size() + 1), T(-77));
  }
  T& at(std::size_t i, std::size_t j) {
    return v[i + j * std::size_t(ld)];
  }
  void set(const Dense<T>& a, bool lower) {
    for (std::size_t j = 0; j < cols.size(); ++j)
      for (std::size_t i = 0; i < rows.size(); ++i)
        if (lower ? rows[i] >= cols[j] : rows[i] <= cols[j])
          at(i, j) = a(rows[i], cols[j]);
  }
  void get(Dense<T>& a) {
    vp::HbIgnore h;
    for (std::size_t j = 0; j < cols.size(); ++j)
      for (std::size_t i = 0; i < rows.size(); ++i)
        a(rows[i], cols[j]) = at(i, j);
  }
  // nothing but the lower triangle has changed (or nothing but elements of the matrix)
  void only_changed(const Local& before, const char* what, int rank, bool all) {
    std::vector<char> ok(v.size(), 0);
    for (std::size_t j = 0; j < cols.size(); ++j)
      for (std::size_t i = 0; i < rows.size(); ++i)
        ok[i + j * std::size_t(ld)] = all || rows[i] >= cols[j];
    for (std::size_t k = 0; k < v.size(); ++k)
      VP_CHECK(ok[k] || v[k] == before.v[k], "element (%ld,%ld) of the local array of %s of rank %d was changed", long(k) % ld, long(k) / ld, what, rank);
  }
  void unchanged(const Local& before, const char* what, int rank) {
    for (std::size_t k = 0; k < v.size(); ++k)
      VP_CHECK(v[k] == before.v[k], "element (%ld,%ld) of the local array of %s of rank %d was changed", long(k) % ld, long(k) / ld, what, rank);
  }
};

struct Setup {
  int n, nb, isrc, jsrc, pad;
  bool scalapack, row_major, small;
  Setup(int gr, int gc, const Bound& b) {
    n = b.min + pick(b.max - b.min + 1);
    nb = b.blocks[to_sizet(pick(int(b.blocks.size())))];
    isrc = b.sources ? pick(gr) : gr - 1;
    jsrc = b.sources ? pick(gc) : gc - 1;
    scalapack = pick(2);
    row_major = b.orders ? pick(2) : (n + scalapack) % 2;
    pad = (n + isrc) % 2;
    small = (n + jsrc) % 2;
  }
  std::string text(int gr, int gc) const {
    return vp::fmt("size %d in blocks of %d on %dx%d (%c) from (%d,%d), padding %d, %s interface, %s letters", n, nb, gr, gc, row_major ? 'R' : 'C', isrc, jsrc, pad, scalapack ? "ScaLAPACK" : "C",
                   small ? "small" : "capital");
  }
  template <class F>
  void run(int gr, int gc, F f) const {
    const bool r = row_major;
    vp::ranks(gr * gc, 2, [=](int rank) {
      start_runtime();
      const int other = CALL(dlaf_create_grid)(MPI_COMM_WORLD, gc, gr, r ? 'C' : 'R');
      const int ctxt = CALL(dlaf_create_grid)(MPI_COMM_WORLD, gr, gc, r ? 'R' : 'C');
      f(rank, ctxt, r ? rank / gc : rank % gr, r ? rank % gc : rank / gr);
      CALL(dlaf_free_grid)(ctxt);
      CALL(dlaf_free_grid)(other);
      stop_runtime();
    });
  }
};

template <class T>
static void inverse(int gr, int gc, Bound b) {
  const Setup s(gr, gc, b);
  const bool lower = pick(2);
  vp::context(vp::fmt("inverse from the %s factor, %s, %s", lower ? "lower" : "upper", type_name<T>(), s.text(gr, gc).c_str()));
  // all numbers are exact
  auto l = lower_factor<T>(s.n, 1);
  Dense<T> x(s.n, s.n);
  for (int j = 0; j < s.n; ++j)
    for (int i = j; i < s.n; ++i) {
      T v = i == j ? T(1) : T(0);
      for (int k = j; k < i; ++k)
        v -= l(i, k) * x(k, j);
      x(i, j) = v / l(i, i);
    }
  // inv(L L^H) = L^-H L^-1, inv(U^H U) = U^-1 U^-H with U = L^H: the same
  const auto want = adj(x) * x;
  const auto factor = lower ? l : adj(l);
  s.run(gr, gc, [&](int rank, int ctxt, int pr, int pc) {
    Local<T> a(s.n, s.nb, gr, gc, pr, pc, s.isrc, s.jsrc, s.pad), w = a;
    a.set(factor, lower);
    w.set(want, lower);
    const char uplo = lower ? (s.small ? 'l' : 'L') : (s.small ? 'u' : 'U');
    int info = -1;
    if (s.scalapack) {
      const int desc[9] = {1, ctxt, s.n, s.n, s.nb, s.nb, s.isrc, s.jsrc, a.ld};
      Names<T>::potri(uplo, s.n, a.v.data(), desc, &info);
    }
    else
      info = Names<T>::inverse(ctxt, uplo, a.v.data(), {s.n, s.n, s.nb, s.nb, s.isrc, s.jsrc, 0, 0, a.ld});
    VP_CHECK(info == 0, "info is %d", info);
    for (std::size_t k = 0; k < a.v.size(); ++k)
      VP_CHECK(a.v[k] == w.v[k], "element (%ld,%ld) of the local array of rank %d", long(k) % a.ld, long(k) / a.ld, rank);
  });
  ++vp::n_nontrivial;
}

template <class T>
static void eigensolver(int gr, int gc, Bound b) {
  using R = BaseType<T>;
  const Setup s(gr, gc, b);
  const int kind = b.kinds[to_sizet(pick(int(b.kinds.size())))];
  const int n = s.n;
  // the ScaLAPACK interface only accepts empty ranges of empty matrices
  const int choice = b.all_ranges ? pick(n + 2) : pick(2) ? n + 1 : n / 2;
  const bool part = choice <= n;
  const int end = part ? choice : n;
  if (s.scalapack && end == 0 && n > 0)
    return;
  const char* names[] = {"standard", "generalized", "generalized, factorized"};
  const std::string text = vp::fmt("%s eigensolver, %s, %s, %d eigenpairs%s", names[kind], type_name<T>(), s.text(gr, gc).c_str(), end, part ? " of a range" : "");
  vp::context(text);
  const auto a = hermitian<T>(n, 1);
  const auto l = lower_factor<T>(n, 1);
  const auto bb = l * adj(l);
  Dense<T> q(n, n);
  std::vector<std::vector<R>> vals(to_sizet(gr * gc));
  s.run(gr, gc, [&](int rank, int ctxt, int pr, int pc) {
    Tune t;
    t.min_band = 2;
    tune(t);
    auto make = [&](int pad) { return Local<T>(n, s.nb, gr, gc, pr, pc, s.isrc, s.jsrc, pad); };
    auto ma = make(s.pad), mb = make(2 * s.pad), mz = make(1);
    ma.set(a, true);
    mb.set(kind == 2 ? l : bb, true);
    const auto a0 = ma, b0 = mb, z0 = mz;
    std::vector<R> w(std::size_t(n + 1), R(-55));
    const char uplo = s.small ? 'l' : 'L';
    int info = -1;
    if (s.scalapack) {
      const int da[9] = {1, ctxt, n, n, s.nb, s.nb, s.isrc, s.jsrc, ma.ld}, db[9] = {1, ctxt, n, n, s.nb, s.nb, s.isrc, s.jsrc, mb.ld}, dz[9] = {1, ctxt, n, n, s.nb, s.nb, s.isrc, s.jsrc, mz.ld};
      Names<T>::psolve(kind, part, end, uplo, n, ma.v.data(), da, mb.v.data(), db, w.data(), mz.v.data(), dz, &info);
    }
    else {
      auto d = [&](auto& m) { return DLAF_descriptor{n, n, s.nb, s.nb, s.isrc, s.jsrc, 0, 0, m.ld}; };
      info = Names<T>::solve(kind, part, end, ctxt, uplo, ma.v.data(), d(ma), mb.v.data(), d(mb), w.data(), mz.v.data(), d(mz));
    }
    // everything is there when the call returns
    VP_CHECK(info == 0, "info is %d", info);
    VP_CHECK(w[std::size_t(n)] == R(-55), "rank %d: a value behind the eigenvalues was changed", rank);
    ma.only_changed(a0, "a", rank, false);
    mz.only_changed(z0, "z", rank, true);
    if (kind == 1)
      mb.only_changed(b0, "b", rank, false);
    else
      mb.unchanged(b0, "b", rank);
    mz.get(q);
    vp::HbIgnore h;
    vals[to_sizet(rank)] = w;
  });
  for (const auto& v : vals)
    VP_CHECK(std::equal(v.begin(), v.begin() + end, vals[0].begin()), "the ranks got different eigenvalues");
  check_eigenpairs<T>(a, kind ? &l : nullptr, end, vals[0], q);
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P39";
    s.rule = "all functions of both interfaces, sizes, blocks, source ranks, paddings, orders of the grid and ranges of the spectrum within the bound, under both MPI behaviours; every rank runs its own copy of the C API; "
             "non-trivial: a call on all ranks whose results were checked";
    auto add = [&](auto zero, int r, int c, Bound b, int dev, unsigned pol, bool mpi, bool hb) {
      using T = decltype(zero);
      for (const bool eigen : {true, false}) {
        auto k = vp::sched_case(vp::fmt("%s %s %dx%d, %d to %d, %d blocks%s%s%s, %d deviations", eigen ? "eigensolvers" : "inverse", type_name<T>(), r, c, b.min, b.max, int(b.blocks.size()), b.all_ranges ? ", ranges" : "",
                                        b.sources ? ", sources" : "", b.orders ? ", orders" : "", dev),
                                [=] { eigen ? eigensolver<T>(r, c, b) : inverse<T>(r, c, b); }, dev, pol, mpi, hb);
        k.split = 12;
        s.cases.push_back(k);
      }
    };
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO, eager = 1u << vp::EAGER;
    const int t = thorough;
    add(0., 1, 1, {0, 5 + t, {2, 3}}, 0, two, false, true);
    add(0.f, 1, 1, {0, 4 + t, {2, 3}}, 0, one, false, false);
    add(Cf(), 1, 1, {0, 4 + t, {2, 3}}, 0, one, false, false);
    add(Cd(), 1, 1, {0, 4 + t, {2, 3}}, 0, one, false, false);
    for (auto [r, c] : {std::pair{2, 1}, {1, 2}}) {
      add(0., r, c, {0, 5 + t, {2, 3}}, 0, thorough ? two : eager, true, true);
      add(0.f, r, c, {3, 4 + t, {2}, true, false, false}, 0, one, false, false);
      add(Cf(), r, c, {3, 4 + t, {2}, true, false, false}, 0, one, false, false);
      add(Cd(), r, c, {3, 4 + t, {2}, true, false, false}, 0, one, false, false);
    }
    add(0., 2, 2, {0, 4 + t, {2}, false}, 0, one, true, false);
    add(Cd(), 2, 2, {5, 5 + t, {2}, false, false}, 0, eager, false, false);
    add(0., 3, 1, {4, 5 + t, {2}, false}, 0, one, false, false);
    add(0., 1, 3, {4, 5 + t, {2}, false}, 0, one, false, false);
    // every schedule close to the default one
    add(0., 1, 1, {3, 3, {2}, false, true, false, {0, 2}}, 1, one, false, true);
    if (thorough)
      add(0., 1, 2, {3, 3, {2}, false, false, false}, 1, one, true, true);
    return s;
  });
}
