// References for the eigensolvers: eigenvalues by Jacobi's method, residuals and orthogonality, in extended precision
#pragma once
#include "algo.hpp"

namespace algo {
using W = std::complex<long double>;

// Eigenvalues of a Hermitian matrix by Jacobi's method for the real symmetric matrix with each of them twice
inline std::vector<long double> jacobi(const DenseW& a) {
  const SizeType n = a.n, m = 2 * n;
  Dense<long double> s(m, m, [&](SizeType i, SizeType j) {
    const W x = a(i % n, j % n);
    return i / n == j / n ? x.real() : i < n ? -x.imag() : x.imag();
  });
  for (int sweep = 0; sweep < 60; ++sweep) {
    long double off = 0, all = 0;
    for (SizeType j = 0; j < m; ++j)
      for (SizeType i = 0; i < m; ++i)
        (i == j ? all : off) += s(i, j) * s(i, j);
    if (off <= 1e-36L * all)
      break;
    for (SizeType p = 0; p < m; ++p)
      for (SizeType q = p + 1; q < m; ++q) {
        if (s(p, q) == 0)
          continue;
        const long double theta = (s(q, q) - s(p, p)) / (2 * s(p, q));
        const long double t = (theta < 0 ? -1 : 1) / (std::abs(theta) + std::sqrt(theta * theta + 1)), c = 1 / std::sqrt(t * t + 1), z = t * c;
        for (SizeType k = 0; k < m; ++k) {
          const long double x = s(k, p), y = s(k, q);
          s(k, p) = c * x - z * y;
          s(k, q) = z * x + c * y;
        }
        for (SizeType k = 0; k < m; ++k) {
          const long double x = s(p, k), y = s(q, k);
          s(p, k) = c * x - z * y;
          s(q, k) = z * x + c * y;
        }
      }
  }
  std::vector<long double> all, l;
  for (SizeType i = 0; i < m; ++i)
    all.push_back(s(i, i));
  std::sort(all.begin(), all.end());
  for (SizeType i = 0; i < n; ++i)
    l.push_back((all[to_sizet(2 * i)] + all[to_sizet(2 * i + 1)]) / 2);
  return l;
}

// inv(l) * a * inv(l)^H
inline DenseW congruent(const DenseW& l, const DenseW& a) {
  auto lower = [&](const DenseW& b) {
    DenseW x = b;
    for (SizeType j = 0; j < x.n; ++j)
      for (SizeType i = 0; i < x.m; ++i) {
        for (SizeType k = 0; k < i; ++k)
          x(i, j) -= l(i, k) * x(k, j);
        x(i, j) /= l(i, i);
      }
    return x;
  };
  return adj(lower(adj(lower(a))));
}

// Checks that the columns of q and vals are the first eigenpairs of a, or of the pair of a and l * l^H
template <class T>
void check_eigenpairs(const Dense<T>& a, const Dense<T>* l, SizeType end, const std::vector<BaseType<T>>& vals, const Dense<T>& q) {
  using R = BaseType<T>;
  const SizeType n = a.n;
  const long double eps = std::numeric_limits<R>::epsilon();
  const auto wa = wide(a), wl = l ? wide(*l) : DenseW(), wb = l ? wl * adj(wl) : identity(n);
  const auto want = jacobi(l ? congruent(wl, wa) : wa);
  long double norm = 0, growth = 1;
  for (auto x : want)
    norm = std::max(norm, std::abs(x));
  if (l) {  // the errors are amplified by the condition of the second matrix
    const auto w = jacobi(wb);
    for (auto x : w)
      growth = std::max(growth, x / w[0]);
    norm = std::max(norm, max_abs(wa) * (n + 1) / (n ? w[0] : 1));
  }
  for (SizeType i = 0; i < end; ++i) {
    const long double got = vals[to_sizet(i)];
    VP_CHECK(i == 0 || vals[to_sizet(i - 1)] <= vals[to_sizet(i)], "the eigenvalues are not in ascending order: %Lg and %Lg at %ld", (long double) vals[to_sizet(i - 1)], got, i);
    VP_CHECK(std::abs(got - want[to_sizet(i)]) <= 30 * eps * (n + 1) * norm * growth, "eigenvalue %ld is %Lg instead of %Lg", i, got, want[to_sizet(i)]);
  }
  const auto w = wide(q);
  const DenseW z(n, end, [&](SizeType i, SizeType j) { return w(i, j); });
  const auto d1 = difference(adj(z) * wb * z, identity(end));
  VP_CHECK(d1 <= 30 * eps * (n + 1) * growth, "the eigenvectors are not orthonormal (%Lg)", d1);
  const DenseW lambda(end, end, [&](SizeType i, SizeType j) -> W { return i == j ? vals[to_sizet(i)] : 0; });
  const auto d2 = difference(wa * z, wb * z * lambda);
  VP_CHECK(d2 <= 30 * eps * (n + 1) * norm * growth * (1 + max_abs(wb)), "these are not the eigenpairs (%Lg, the norm is %Lg)", d2, norm);
}
}
