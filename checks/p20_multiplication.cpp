// P20: triangular, Hermitian and general multiplication for all options, distributions and schedules
#include <dlaf/multiplication/general.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/multiplication/triangular.h>

#include "algo.hpp"

using namespace algo;
using matrix::internal::MatrixRef;
using matrix::internal::SubMatrixSpec;

// One dimension of a product: its size, its tiles, and where it starts in the two matrices that have it
struct Dim {
  SizeType n, nb, o[2];
  SizeType total(int k) const {
    return o[k] + n + (o[k] ? 1 : 0);
  }
  std::string str() const {
    return vp::fmt("%ld in %ld from %ld/%ld", n, nb, o[0], o[1]);
  }
};
enum Vary { FEW, SIZES, TILES, SHIFTS };
static Dim dim(Vary v) {
  if (v == FEW)
    return {1 + 2 * pick(2), 2, {0, 0}};
  const SizeType n = pick(4), nb = 1 + pick(2);
  if (v == SIZES)
    return {n, nb, {0, 0}};
  const SizeType o = pick(int(nb));
  if (v == TILES)
    return {n, nb, {o, o}};
  return {n, nb, {o + nb * pick(2), o + nb * pick(2)}};
}
template <class T>
static Dense<T> embed(const Dense<T>& a, SizeType M, SizeType N, SizeType oi, SizeType oj) {
  return Dense<T>(M, N, [&](SizeType i, SizeType j) { return i >= oi && i < oi + a.m && j >= oj && j < oj + a.n ? a(i - oi, j - oj) : untouched<T>(i, j); });
}

template <class T>
static void gemm(bool local, int gr, int gc, Vary vm, Vary vn, Vary vk, bool src) {
  const Dim m = dim(vm), n = dim(vn), k = dim(vk);
  const T alpha = num<T>(2, 1), beta = T((m.n + n.n + k.n) % 3 - 1);
  // C's source is free, that of A and B has to agree with it in the dimension they share with C
  const int sr = src ? pick(gr) : gr - 1, sc = src ? pick(gc) : 0, ac = src ? pick(gc) : 0, br = src ? pick(gr) : 0;
  const int ar = int((sr + m.o[1] / m.nb - m.o[0] / m.nb + 8 * gr) % gr), bc = int((sc + n.o[1] / n.nb - n.o[0] / n.nb + 8 * gc) % gc);
  vp::context(vp::fmt("general %s: %s x %s x %s, %s %dx%d, sources a (%d,%d) b (%d,%d) c (%d,%d)", type_name<T>(), m.str().c_str(), k.str().c_str(), n.str().c_str(), local ? "local" : "grid", gr, gc, ar, ac, br, bc, sr, sc));
  const auto a = general<T>(m.n, k.n, 1), b = general<T>(k.n, n.n, 2), c = general<T>(m.n, n.n, 3);
  const auto fa = embed(a, m.total(0), k.total(0), m.o[0], k.o[0]), fb = embed(b, k.total(1), n.total(0), k.o[1], n.o[0]);
  const auto fc = embed(c, m.total(1), n.total(1), m.o[1], n.o[1]), want = embed(alpha * (a * b) + beta * c, m.total(1), n.total(1), m.o[1], n.o[1]);
  on(local, gr, gc, [&](Place p) {
    // (the distributed version refuses blocks of many tiles)
    const SizeType ta = local ? 1 + p.layouts % 2 : 1, tb = local ? 1 + p.layouts / 2 % 3 : 1;
    auto mat_a = p.make<T>(fa.m, fa.n, m.nb, k.nb, ar, ac, false, ta, tb), mat_b = p.make<T>(fb.m, fb.n, k.nb, n.nb, br, bc, false, tb, 1), mat_c = p.make<T>(fc.m, fc.n, m.nb, n.nb, sr, sc, false, 1, ta);
    fill(mat_a, fa);
    fill(mat_b, fb);
    fill(mat_c, fc);
    {
      MatrixRef<const T, Device::CPU> ra(mat_a, SubMatrixSpec{{m.o[0], k.o[0]}, {m.n, k.n}}), rb(mat_b, SubMatrixSpec{{k.o[1], n.o[0]}, {k.n, n.n}});
      MatrixRef<T, Device::CPU> rc(mat_c, SubMatrixSpec{{m.o[1], n.o[1]}, {m.n, n.n}});
      if (local) {
        multiplication::internal::generalMatrix<Backend::MC>(blas::Op::NoTrans, blas::Op::NoTrans, alpha, ra, rb, beta, rc);
      }
      else {
        auto row = p.grid->row_communicator_pipeline();
        auto col = p.grid->col_communicator_pipeline();
        multiplication::internal::generalMatrix<Backend::MC>(row, col, alpha, ra, rb, beta, rc);
      }
    }
    expect<T>(mat_c, "product", want);
    expect<T>(mat_a, "first factor", fa);
    expect<T>(mat_b, "second factor", fb);
  });
}

// which sizes the square matrix and the other one have
struct Bound {
  SizeType min, max_m, max_n, max_nb;
  bool sub = false;   // B is a part of a matrix
  bool fixed = false; // one choice of source ranks
};

template <class T>
static void hemm(bool local, int gr, int gc, Bound b) {
  const SizeType m = b.min + pick(int(b.max_m - b.min) + 1), n = b.min + pick(int(b.max_n - b.min) + 1);
  const SizeType mb = 1 + pick(int(b.max_nb)), nb = 1 + pick(int(b.max_nb));
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc), other = b.fixed ? gc - 1 : pick(gc);
  const SizeType om = b.sub ? mb * pick(2) : 0, oc = b.sub ? nb * pick(2) : 0, em = b.sub ? pick(2) : 0, en = b.sub ? 1 - em : 0;
  const T alpha = num<T>(-1, 2), beta = T(pick(3) - 1);
  vp::context(vp::fmt("hermitian %s: %ldx%ld in blocks of %ldx%ld at (%ld,%ld), beta %d, %s %dx%d from (%d,%d), other source %d", type_name<T>(), m, n, mb, nb, om, oc, int(std::real(beta)), local ? "local" : "grid", gr, gc, sr, sc,
                      other));
  const auto a = hermitian<T>(m, 1), x = general<T>(m, n, 2), c = general<T>(m, n, 3);
  const auto sa = stored(a, blas::Uplo::Lower);
  const auto fb = embed(x, om + m + em, oc + n + en, om, oc);
  const auto want = alpha * (a * x) + beta * c;
  on(local, gr, gc, [&](Place p) {
    const int br = int((sr - om / mb + 8 * gr) % gr), bc = int((sc - oc / nb + 8 * gc) % gc);
    auto mat_a = p.make<T>(m, m, mb, mb, sr, other), mat_b = p.make<T>(fb.m, fb.n, mb, nb, br, bc), mat_c = p.make<T>(m, n, mb, nb, sr, sc);
    fill(mat_a, sa);
    fill(mat_b, fb);
    fill(mat_c, c);
    if (local)
      hermitian_multiplication<Backend::MC>(blas::Side::Left, blas::Uplo::Lower, alpha, mat_a, mat_b, beta, mat_c);
    else if (b.sub) {
      MatrixRef<const T, Device::CPU> ref(mat_b, SubMatrixSpec{{om, oc}, {m, n}});
      internal::hermitian_multiplication<Backend::MC, Device::CPU, T>(*p.grid, blas::Side::Left, blas::Uplo::Lower, alpha, mat_a, ref, beta, mat_c);
    }
    else
      hermitian_multiplication<Backend::MC>(*p.grid, blas::Side::Left, blas::Uplo::Lower, alpha, mat_a, mat_b, beta, mat_c);
    expect<T>(mat_c, "product", want);
    expect<T>(mat_a, "hermitian matrix", sa);
    expect<T>(mat_b, "factor", fb);
  });
}

template <class T>
static void trmm(bool local, int gr, int gc, Bound b) {
  const auto side = pick(2) ? blas::Side::Left : blas::Side::Right;
  const auto uplo = pick(2) ? blas::Uplo::Lower : blas::Uplo::Upper;
  // the distributed ones with a transposition do not exist
  const auto op = local ? std::array{blas::Op::NoTrans, blas::Op::Trans, blas::Op::ConjTrans}[to_sizet(pick(isComplex_v<T> ? 3 : 2))] : blas::Op::NoTrans;
  const auto diag = pick(2) ? blas::Diag::NonUnit : blas::Diag::Unit;
  const bool left = side == blas::Side::Left;
  const SizeType m = b.min + pick(int(b.max_m - b.min) + 1), n = b.min + pick(int(b.max_n - b.min) + 1);
  const SizeType mb = 1 + pick(int(b.max_nb)), nb = 1 + pick(int(b.max_nb));
  const int sr = b.fixed ? gr - 1 : pick(gr), sc = b.fixed ? 0 : pick(gc), other = b.fixed ? (left ? gc - 1 : 0) : left ? pick(gc) : pick(gr);
  const T alpha = T((m + n + mb) % 2 ? 2 : -1);
  const SizeType na = left ? m : n, ba = left ? mb : nb;
  vp::context(vp::fmt("triangular %s %s %s %s %s, %ldx%ld in blocks of %ldx%ld, %s %dx%d, source (%d,%d), other source %d", type_name<T>(), name(side), name(uplo), name(op), name(diag), m, n, mb, nb, local ? "local" : "grid", gr,
                      gc, sr, sc, other));
  const auto a = triangular<T>(na, uplo, diag, 1);
  const auto x = general<T>(m, n, 2);
  const auto want = alpha * (left ? apply(op, a) * x : x * apply(op, a));
  const auto sa = stored(a, uplo, diag);
  on(local, gr, gc, [&](Place p) {
    auto mat_a = left ? p.make<T>(na, na, ba, ba, sr, other) : p.make<T>(na, na, ba, ba, other, sc);
    auto mat_b = p.make<T>(m, n, mb, nb, sr, sc);
    fill(mat_a, sa);
    fill(mat_b, x);
    if (local)
      triangular_multiplication<Backend::MC, Device::CPU, T>(side, uplo, op, diag, alpha, mat_a, mat_b);
    else
      triangular_multiplication<Backend::MC, Device::CPU, T>(*p.grid, side, uplo, op, diag, alpha, mat_a, mat_b);
    expect<T>(mat_b, "product", want);
    expect<T>(mat_a, "triangular matrix", sa);
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P20";
    s.rule = "all options, sizes, block sizes, source ranks, grids and sub-matrices within the bound, for all element types, under both MPI behaviours and all schedules within the deviation bound; "
             "non-trivial: one multiplication, compared bit by bit with the exact product";
    const SizeType t = thorough;
    using C = std::complex<double>;
    using Cf = std::complex<float>;
    const unsigned all = vp::ALL_POLICIES, basic = vp::BASIC_POLICIES;
    const unsigned two = thorough ? all : LIFO_EAGER, one = thorough ? basic : JUST_LIFO, lf = JUST_LIFO;
    auto push = [&](std::string name, bool local, int r, int c, int dev, std::function<void()> f, unsigned pol, bool hb) {
      auto k = vp::sched_case(vp::fmt("%s, %s %dx%d, %d deviations", name.c_str(), local ? "local" : "grid", r, c, dev), std::move(f), dev, pol, !local, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    auto ge = [&](auto zero, bool local, int r, int c, Vary m, Vary n, Vary k, bool src, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      push(vp::fmt("general %s %d%d%d%s", type_name<T>(), m, n, k, src ? ", any source" : ""), local, r, c, dev, [=] { gemm<T>(local, r, c, m, n, k, src); }, pol, hb);
    };
    auto desc = [](const char* kind, const char* type, Bound b) {
      return vp::fmt("%s %s from %ld up to %ldx%ld, blocks up to %ld%s%s", kind, type, b.min, b.max_m, b.max_n, b.max_nb, b.sub ? ", part" : "", b.fixed ? ", one source" : "");
    };
    auto he = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      push(desc("hermitian", type_name<T>(), b), local, r, c, dev, [=] { hemm<T>(local, r, c, b); }, pol, hb);
    };
    auto tr = [&](auto zero, bool local, int r, int c, Bound b, int dev, unsigned pol, bool hb) {
      using T = decltype(zero);
      push(desc("triangular", type_name<T>(), b), local, r, c, dev, [=] { trmm<T>(local, r, c, b); }, pol, hb);
    };
    ge(0., true, 1, 1, SIZES, SIZES, SIZES, true, 0, two, true);
    ge(0., true, 1, 1, SHIFTS, FEW, SHIFTS, true, 0, lf, true);
    ge(0., true, 1, 1, FEW, SHIFTS, SHIFTS, true, 0, lf, false);
    ge(C{}, true, 1, 1, SHIFTS, SHIFTS, FEW, true, 0, lf, false);
    ge(0., false, 1, 1, SIZES, SIZES, SIZES, true, 0, lf, false);
    ge(0., false, 2, 1, SIZES, SIZES, SIZES, true, 0, lf, false);
    ge(0., false, 1, 2, SIZES, SIZES, SIZES, true, 0, lf, false);
    ge(0., false, 2, 2, thorough ? SIZES : FEW, SIZES, SIZES, thorough, 0, lf, false);
    ge(0., false, 2, 2, FEW, FEW, FEW, true, 0, two, true);
    ge(0., false, 2, 1, SHIFTS, FEW, thorough ? SHIFTS : TILES, false, 0, lf, false);
    ge(0., false, 1, 2, FEW, SHIFTS, thorough ? SHIFTS : TILES, false, 0, lf, false);
    ge(C{}, false, 2, 2, thorough ? SHIFTS : TILES, thorough ? SHIFTS : TILES, FEW, false, 0, lf, false);
    ge(0.f, false, 2, 2, FEW, thorough ? SHIFTS : FEW, thorough ? SHIFTS : TILES, false, 0, lf, false);
    ge(Cf{}, false, 3, 2, FEW, FEW, TILES, false, 0, lf, false);
    ge(0., false, 2, 3, FEW, FEW, TILES, thorough, 0, lf, true);
    ge(0., true, 1, 1, FEW, FEW, FEW, true, 1, lf, true);
    ge(0., false, 2, 2, FEW, FEW, FEW, false, 1, lf, true);

    he(0., true, 1, 1, {0, 4 + t, 3 + t, 2}, 0, two, true);
    he(0., false, 1, 1, {0, 3, 2, 2}, 0, two, true);
    he(0., false, 2, 1, {0, 4 + t, 2, 2}, 0, lf, true);
    he(0., false, 1, 2, {0, 4 + t, 3, 2}, 0, lf, true);
    he(0., false, 2, 2, {1 - t, 4 + t, 2 + t, 1 + t}, 0, lf, false);
    he(0., false, 3, 2, {2, 4 + t, 3, 1}, 0, one, false);
    he(0., false, 2, 3, {2, 4, 3 + t, 1}, 0, one, false);
    he(0., false, 2, 2, {1, 3, 2, 1 + t, true, !t}, 0, lf, false);
    he(C{}, true, 1, 1, {0, 3, 2, 2}, 0, lf, true);
    he(C{}, false, 2, 2, {0, 3, 2, 1 + t}, 0, lf, false);
    he(0.f, true, 1, 1, {1, 3, 2, 2}, 0, lf, true);
    he(0.f, false, 2, 1, {1, 3, 2, 2}, 0, lf, false);
    he(Cf{}, true, 1, 1, {1, 3, 2, 2}, 0, lf, true);
    he(Cf{}, false, 1, 2, {1, 3, 2, 2}, 0, lf, false);
    he(0., true, 1, 1, {2, 3, 2, 1}, 1, one, true);
    he(0., false, 2, 1, {2, 2, 2, 1, false, !t}, 1, one, true);
    he(0., false, 1, 2, {2, 2, 2, 1, false, !t}, 1, one, true);
    he(0., false, 2, 2, {2, 2, 2, 1, false, !t}, 1, lf, true);

    tr(0., true, 1, 1, {0, 4 + t, 4 + t, 2}, 0, lf, true);
    tr(0., false, 1, 1, {0, 3, 3, 2}, 0, lf, true);
    tr(0., false, 2, 1, {0, 4 + t, 3 + t, 2}, 0, lf, true);
    tr(0., false, 1, 2, {0, 3 + t, 4 + t, 2}, 0, lf, true);
    tr(0., false, 2, 2, {0, 4, 4, 1 + t}, 0, lf, false);
    tr(0., false, 3, 1, {4, 4, 4, 1}, 0, one, true);
    tr(0., false, 1, 3, {4, 4, 4, 1}, 0, one, true);
    tr(0., false, 2, 3, {4 - t, 4, 4, 1}, 0, one, false);
    tr(0., false, 3, 2, {4 - t, 4, 4, 1}, 0, one, false);
    tr(C{}, true, 1, 1, {0, 3, 3, 2}, 0, lf, true);
    tr(C{}, false, 2, 2, {1, 3, 3, 1 + t}, 0, lf, false);
    tr(0.f, true, 1, 1, {2, 3, 3, 2}, 0, lf, true);
    tr(0.f, false, 2, 1, {2, 3, 3, 2}, 0, lf, false);
    tr(Cf{}, true, 1, 1, {2, 3, 3, 2}, 0, lf, true);
    tr(Cf{}, false, 1, 2, {2, 3, 3, 2}, 0, lf, false);
    tr(0., true, 1, 1, {2, 3, 2, 1}, 1, one, true);
    tr(0., false, 2, 1, {2, 2, 2, 1, false, !t}, 1, one, true);
    tr(0., false, 1, 2, {2, 2, 2, 1, false, !t}, 1, one, true);
    tr(0., false, 2, 2, {2, 2, 2, 1, false, !t}, 1, lf, true);
    if (thorough) {
      ge(0., false, 2, 1, FEW, FEW, FEW, true, 1, LIFO_EAGER, true);
      ge(0., false, 2, 2, FEW, FEW, FEW, true, 1, LIFO_EAGER, true);
      he(0., false, 2, 2, {3, 3, 2, 1, false, true}, 1, lf, true);
      tr(0., false, 2, 2, {3, 3, 3, 1, false, true}, 1, lf, true);
    }
    return s;
  });
}
