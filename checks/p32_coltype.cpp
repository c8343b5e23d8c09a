// P32: column types after deflation and the index maps derived from them.
#include <algorithm>
#include <array>
#include <numeric>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>

#include <dlaf/eigensolver/tridiag_solver/merge.h>
#include <dlaf/matrix/matrix.h>

#include "sched.hpp"

using namespace dlaf;
using dlaf::matrix::Distribution;
using dlaf::matrix::Matrix;
namespace ei = dlaf::eigensolver::internal;
namespace tt = pika::this_thread::experimental;
using ei::ColType;
using idx_t = std::vector<SizeType>;

static int group(ColType t) {
  return t == ColType::UpperHalf ? 0 : t == ColType::Dense ? 1 : t == ColType::LowerHalf ? 2 : 3;
}
static std::string show(const std::vector<ColType>& t, const idx_t& p, const std::vector<double>& e) {
  std::string s = "types ";
  for (auto x : t)
    s += "UDLX"[group(x)];
  s += " sorted";
  for (auto x : p)
    s += vp::fmt(" %ld", x);
  s += " values";
  for (auto x : e)
    s += vp::fmt(" %g", x);
  return s;
}

// non-deflated as they come, then the deflated ones by value
static void check_sorted(const std::vector<ColType>& types, const std::vector<double>& ev, const idx_t& perm, const idx_t& out, SizeType k) {
  const SizeType n = SizeType(types.size());
  std::vector<bool> used(std::size_t(n), false);
  for (auto x : out) {
    VP_CHECK(x >= 0 && x < n && !used[std::size_t(x)], "index_sorted is no permutation");
    used[std::size_t(x)] = true;
  }
  SizeType c = 0;
  for (auto x : perm)
    if (types[std::size_t(x)] != ColType::Deflated) {
      VP_CHECK(out[std::size_t(c)] == x, "non-deflated column %ld: %ld instead of %ld", c, out[std::size_t(c)], x);
      ++c;
    }
  VP_CHECK(c == k, "%ld non-deflated columns, %ld reported", c, k);
  for (SizeType i = k; i < n; ++i) {
    VP_CHECK(types[std::size_t(out[std::size_t(i)])] == ColType::Deflated, "a non-deflated column among the deflated ones");
    if (i > k)
      VP_CHECK(ev[std::size_t(out[std::size_t(i - 1)])] <= ev[std::size_t(out[std::size_t(i)])], "deflated values are not in ascending order");
  }
}

static void local(const std::vector<ColType>& types, const std::vector<double>& ev, const idx_t& perm) {
  const SizeType n = SizeType(types.size());
  idx_t out(std::size_t(n), -7), by(std::size_t(n), -7);
  const auto [k, n_udl] = ei::stablePartitionIndexForDeflationArrays(n, types.data(), ev.data(), perm.data(), out.data(), by.data());
  check_sorted(types, ev, perm, out, k);
  // upper | dense | lower in initial order, deflated as above
  SizeType pos = 0;
  for (int g = 0; g < 3; ++g) {
    SizeType c = 0;
    for (SizeType i = 0; i < n; ++i)
      if (group(types[std::size_t(i)]) == g) {
        VP_CHECK(by[std::size_t(pos)] == i, "position %ld by type has column %ld instead of %ld", pos, by[std::size_t(pos)], i);
        ++pos, ++c;
      }
    VP_CHECK(SizeType(n_udl[std::size_t(g)]) == c, "%zu columns of group %d are reported, there are %ld", n_udl[std::size_t(g)], g, c);
  }
  for (; pos < n; ++pos)
    VP_CHECK(by[std::size_t(pos)] == out[std::size_t(pos)], "deflated columns by type are ordered differently");
  ++vp::n_nontrivial;
}

struct Ranges {
  Distribution d;
  idx_t owner, lidx;               // per column
  std::vector<idx_t> cols;         // per rank
};
static Ranges ranges(SizeType n, SizeType nb, int grid, int src, int rank, SizeType skip) {
  // the trailing part of a larger matrix, from a tile on
  const SizeType full = n + skip * nb;
  const Distribution whole(GlobalElementSize(full, full), TileElementSize(nb, nb), comm::Size2D(1, grid), comm::Index2D(0, rank), comm::Index2D(0, src));
  Ranges r{Distribution(whole, {GlobalElementIndex(skip * nb, skip * nb), GlobalElementSize(n, n)}), {}, {}, std::vector<idx_t>(std::size_t(grid))};
  for (SizeType i = 0; i < n; ++i) {
    const auto o = std::size_t(((skip * nb + i) / nb + src) % grid);
    r.owner.push_back(SizeType(o));
    r.lidx.push_back(SizeType(r.cols[o].size()));
    r.cols[o].push_back(i);
  }
  return r;
}

static void distributed(const std::vector<ColType>& types, const std::vector<double>& ev, const idx_t& perm, const Ranges& r) {
  const SizeType n = SizeType(types.size());
  const std::size_t rank = std::size_t(r.d.rank_index().col());
  const SizeType nlc = SizeType(r.cols[rank].size());
  idx_t i2 = perm, i3(std::size_t(n), -7), i5(std::size_t(n), -7), i5lc(std::size_t(nlc) + 1, -7), i4(std::size_t(n), -7), i6(std::size_t(n), -7);
  const auto [k, k_lc, udl] = ei::stablePartitionIndexForDeflationArrays(r.d, types.data(), ev.data(), i2.data(), i3.data(), i5.data(), i5lc.data(), i4.data(), i6.data());
  check_sorted(types, ev, perm, i3, k);
  auto type = [&](SizeType c) { return types[std::size_t(c)]; };
  // on every rank: its columns, grouped, each group in the order of index_sorted
  for (std::size_t q = 0; q < r.cols.size(); ++q) {
    idx_t expect;
    for (int g = 0; g < 4; ++g)
      for (auto c : i3)
        if (std::size_t(r.owner[std::size_t(c)]) == q && group(type(c)) == g)
          expect.push_back(c);
    for (std::size_t l = 0; l < r.cols[q].size(); ++l)
      VP_CHECK(i5[std::size_t(r.cols[q][l])] == expect[l], "rank %zu: position %zu by type has column %ld instead of %ld", q, l, i5[std::size_t(r.cols[q][l])], expect[l]);
    if (q == rank) {
      SizeType nd = 0;
      for (std::size_t l = 0; l < expect.size(); ++l) {
        VP_CHECK(i5lc[l] == r.lidx[std::size_t(expect[l])], "local position %zu by type has local column %ld instead of %ld", l, i5lc[l], r.lidx[std::size_t(expect[l])]);
        nd += type(expect[l]) != ColType::Deflated;
      }
      VP_CHECK(k_lc == nd, "%ld non-deflated local columns are reported, there are %ld", k_lc, nd);
    }
  }
  VP_CHECK(i5lc[std::size_t(nlc)] == -7, "written past the local columns");
  // the ranges of the multiplication
  SizeType fd = 0, ld = n, ll = n;
  while (fd < n && type(i5[std::size_t(fd)]) == ColType::UpperHalf)
    ++fd;
  while (ll > 0 && type(i5[std::size_t(ll - 1)]) == ColType::Deflated)
    --ll;
  ld = ll;
  while (ld > 0 && (type(i5[std::size_t(ld - 1)]) == ColType::Deflated || type(i5[std::size_t(ld - 1)]) == ColType::LowerHalf))
    --ld;
  VP_CHECK(udl[0] == fd && udl[1] == ld && udl[2] == ll, "ranges (%ld %ld %ld) instead of (%ld %ld %ld)", udl[0], udl[1], udl[2], fd, ld, ll);
  // i4: by type -> deflated; i6: non-deflated in the order by type, deflated as i4; i2: its inverse
  SizeType c = 0;
  for (SizeType i = 0; i < n; ++i) {
    const auto u = std::size_t(i);
    VP_CHECK(i4[u] >= 0 && i4[u] < n && i3[std::size_t(i4[u])] == i5[u], "i4[%ld] = %ld", i, i4[u]);
    if (type(i5[u]) != ColType::Deflated) {
      VP_CHECK(i6[u] == c, "i6[%ld] = %ld instead of %ld", i, i6[u], c);
      ++c;
    }
    else
      VP_CHECK(i6[u] == i4[u], "i6[%ld] = %ld instead of %ld", i, i6[u], i4[u]);
    VP_CHECK(i2[u] >= 0 && i2[u] < n && i6[std::size_t(i2[u])] == i, "i2[%ld] = %ld is not the inverse of i6", i, i2[u]);
  }
  ++vp::n_nontrivial;
}

// values in the order of the permutation before deflation; how: what happened to the deflated ones
static std::vector<double> values(const idx_t& perm, int how) {
  const std::size_t n = perm.size();
  std::vector<double> v(n);
  for (std::size_t i = 0; i < n; ++i) {
    const double x = double(i), m = double(n);
    v[std::size_t(perm[i])] = how == 0 ? x : how == 1 ? m - x : how == 2 ? double(i / 2) : how == 3 ? double((i * 5 + 2) % 3) : double((i * 7 + 3) % n);
  }
  return v;
}

static void partitions(SizeType n, std::size_t part, std::size_t parts, bool dist, bool all_perms) {
  idx_t perm(static_cast<std::size_t>(n));
  std::iota(perm.begin(), perm.end(), 0);
  std::vector<Ranges> rs;
  if (dist)
    for (SizeType nb : {1, 2, 3})
      for (int grid = 1; grid <= 3; ++grid)
        for (int src = 0; src < grid; ++src)
          for (int rank = 0; rank < grid; ++rank)
            for (SizeType skip : {0, 1})
              if (skip == 0 || (src == 0 && grid > 1) || nb == 2)
                rs.push_back(ranges(n, nb, grid, src, rank, skip));
  std::size_t count = 0;
  do {
    if (!all_perms && count % 7 != 0 && count != 1) {
      ++count;
      continue;
    }
    if (count++ % parts != part)
      continue;
    for (int how = 0; how < 5; ++how) {
      const auto ev = values(perm, how);
      if (dist && how > 2)
        continue;
      long all = 1;
      for (SizeType i = 0; i < n; ++i)
        all *= 4;
      for (long code = 0; code < all; ++code) {
        std::vector<ColType> types;
        for (long x = code, i = 0; i < n; ++i, x /= 4)
          types.push_back(ColType(x % 4));
        vp::context(show(types, perm, ev));
        if (!dist)
          local(types, ev, perm);
        else
          for (auto& r : rs)
            distributed(types, ev, perm, r);
      }
    }
  } while (std::next_permutation(perm.begin(), perm.end()));
}

// Deflation: the rotated rank-1 update stays the same up to the tolerance, the types cover the structure of the columns
static void deflation(SizeType n, int part, int parts) {
  const std::vector<double> dv{0, 1e-4, 1, 2}, zv{0, 0.5, -0.7, 1e-5};
  const double tol = 1e-3;
  const auto N = std::size_t(n);
  long all = 1;
  for (SizeType i = 0; i < n; ++i)
    all *= 16;
  for (long code = part; code < all; code += parts)
    for (int split = 0; split <= n; ++split)
      for (double rho : {1.0, 0.0, 3.0})
        for (int ties = 0; ties < 2; ++ties) {
          std::vector<double> d, z;
          std::vector<ColType> c;
          for (long x = code, i = 0; i < n; ++i, x /= 16) {
            d.push_back(dv[std::size_t(x % 4)]);
            z.push_back(zv[std::size_t(x / 4 % 4)]);
            c.push_back(i < split ? ColType::UpperHalf : ColType::LowerHalf);
          }
          idx_t perm(N);
          std::iota(perm.begin(), perm.end(), 0);
          if (ties)
            std::reverse(perm.begin(), perm.end());
          std::stable_sort(perm.begin(), perm.end(), [&](SizeType a, SizeType b) { return d[std::size_t(a)] < d[std::size_t(b)]; });
          auto D = d, Z = z;
          auto C = c;
          vp::context(show(c, perm, d) + vp::fmt(" z %g %g %g rho %g", z[0], n > 1 ? z[1] : 0, n > 2 ? z[2] : 0, rho));
          const auto rots = ei::applyDeflationToArrays<double>(rho, tol, n, perm.data(), D.data(), Z.data(), C.data());
          // G^T (D + rho z z^T) G
          std::vector<double> A(N * N);
          for (std::size_t i = 0; i < N; ++i)
            for (std::size_t j = 0; j < N; ++j)
              A[i + j * N] = (i == j ? d[i] : 0) + rho * z[i] * z[j];
          std::vector<int> support(N);
          for (std::size_t i = 0; i < N; ++i)
            support[i] = c[i] == ColType::UpperHalf ? 1 : 2;
          for (auto& r : rots) {
            VP_CHECK(r.i >= 0 && r.i < n && r.j >= 0 && r.j < n && r.i != r.j, "rotation of (%ld,%ld)", r.i, r.j);
            const auto i = std::size_t(r.i), j = std::size_t(r.j);
            VP_CHECK(std::abs(r.c * r.c + r.s * r.s - 1) < 1e-12, "not a rotation");
            for (std::size_t q = 0; q < N; ++q) {
              const double x = A[q + i * N], y = A[q + j * N];
              A[q + i * N] = r.c * x + r.s * y;
              A[q + j * N] = r.c * y - r.s * x;
            }
            for (std::size_t q = 0; q < N; ++q) {
              const double x = A[i + q * N], y = A[j + q * N];
              A[i + q * N] = r.c * x + r.s * y;
              A[j + q * N] = r.c * y - r.s * x;
            }
            support[i] = support[j] = support[i] | support[j];
          }
          SizeType k = 0;
          double last = -1;
          for (auto u : perm) {
            const auto i = std::size_t(u);
            if (C[i] == ColType::Deflated)
              continue;
            ++k;
            const int s = support[i];
            VP_CHECK(C[i] == ColType::Dense || (C[i] == ColType::UpperHalf && s == 1) || (C[i] == ColType::LowerHalf && s == 2), "column %ld has structure %d and type %c", u, s, "UDLX"[group(C[i])]);
            VP_CHECK(D[i] > last, "the non-deflated values are not in ascending order");
            last = D[i];
          }
          for (std::size_t i = 0; i < N; ++i) {
            if (C[i] != ColType::Deflated && k > 1)
              VP_CHECK(std::abs(rho * Z[i]) > tol, "column %zu with a negligible entry %g is not deflated", i, Z[i]);
            for (std::size_t j = 0; j < N; ++j) {
              const bool nd = C[i] != ColType::Deflated && C[j] != ColType::Deflated;
              const double x = (i == j ? D[i] : 0) + (nd ? rho * Z[i] * Z[j] : 0);
              VP_CHECK(std::abs(A[i + j * N] - x) <= 4 * double(n) * tol, "entry (%zu,%zu) is %g instead of %g after deflation", i, j, x, A[i + j * N]);
            }
          }
          ++vp::n_nontrivial;
        }
}

// The same through the tiles, and the index operations on vectors of tiles
static void vectors(SizeType nt, SizeType nb, SizeType last) {
  const SizeType n = (nt - 1) * nb + last;
  vp::ranks(1, 2, [&](int) {
    const Distribution dist(GlobalElementSize(n, 1), TileElementSize(nb, 1), {1, 1}, {0, 0}, {0, 0});
    const Distribution dq(GlobalElementSize(n, n), TileElementSize(nb, nb), {1, 1}, {0, 0}, {0, 0});
    Matrix<SizeType, Device::CPU> a(dist), b(dist), o(dist);
    Matrix<double, Device::CPU> v(dist), w(dist);
    Matrix<ColType, Device::CPU> c(dist);
    auto set = [&](auto& m, auto f) {
      for (SizeType t = 0; t < nt; ++t) {
        auto tile = tt::sync_wait(m.readwrite(GlobalTileIndex(t, 0)));
        for (SizeType i = 0; i < tile.size().rows(); ++i)
          tile({i, 0}) = f(t * nb + i);
      }
    };
    auto at = [&](auto& m, SizeType i) { return tt::sync_wait(m.read(GlobalTileIndex(i / nb, 0))).get()({i % nb, 0}); };
    for (SizeType b0 = 0; b0 < nt; ++b0)
      for (SizeType e0 = b0 + 1; e0 <= nt; ++e0) {
        const SizeType first = b0 * nb, end = std::min(n, e0 * nb), m = end - first;
        vp::context(vp::fmt("n=%ld nb=%ld tiles [%ld,%ld)", n, nb, b0, e0));
        VP_CHECK(ei::problemSize(b0, e0, dq) == m, "problem size %ld instead of %ld", ei::problemSize(b0, e0, dq), m);
        auto outside = [&](auto& x, SizeType marker) {
          for (SizeType i = 0; i < n; ++i)
            if (i < first || i >= end)
              VP_CHECK(at(x, i) == marker, "element %ld outside of the range was modified", i);
        };
        set(a, [](SizeType) { return SizeType(-3); });
        ei::initIndex(b0, e0, a);
        outside(a, -3);
        for (SizeType i = 0; i < m; ++i)
          VP_CHECK(at(a, first + i) == i, "index %ld is %ld", i, at(a, first + i));
        ei::addIndex(b0, e0, 11, a);
        outside(a, -3);
        for (SizeType i = 0; i < m; ++i)
          VP_CHECK(at(a, first + i) == i + 11, "index %ld plus 11 is %ld", i, at(a, first + i));
        // all permutations for small ranges
        idx_t p(static_cast<std::size_t>(m));
        std::iota(p.begin(), p.end(), 0);
        long count = 0;
        do {
          set(a, [&](SizeType i) { return i >= first && i < end ? p[std::size_t(i - first)] : SizeType(-3); });
          set(o, [](SizeType) { return SizeType(-5); });
          ei::invertIndex(b0, e0, a, o);
          outside(o, -5);
          for (SizeType i = 0; i < m; ++i)
            VP_CHECK(p[std::size_t(at(o, first + i))] == i, "inverse of %ld", i);
          set(v, [](SizeType i) { return 100. + double(i); });
          set(w, [](SizeType) { return -5.; });
          ei::applyIndex(b0, e0, a, v, w);
          outside(w, -5);
          for (SizeType i = 0; i < m; ++i)
            VP_CHECK(at(w, first + i) == 100. + double(first + p[std::size_t(i)]), "applied index %ld", i);
          // merge two sorted parts
          for (SizeType k = 0; k <= m; ++k) {
            set(v, [&](SizeType i) { return double(((i - first) * 5) % 3); });
            auto val = [&](SizeType i) { return double((i * 5) % 3); };
            auto q = p;
            auto cmp = [&](SizeType x, SizeType y) { return val(x) < val(y); };
            std::stable_sort(q.begin(), q.begin() + k, cmp);
            std::stable_sort(q.begin() + k, q.end(), cmp);
            set(b, [&](SizeType i) { return i >= first && i < end ? q[std::size_t(i - first)] : SizeType(-3); });
            set(o, [](SizeType) { return SizeType(-5); });
            ei::sortIndex(b0, e0, pika::execution::experimental::just(k), v, b, o);
            outside(o, -5);
            std::vector<bool> used(std::size_t(m), false);
            for (SizeType i = 0; i < m; ++i) {
              const SizeType x = at(o, first + i);
              VP_CHECK(x >= 0 && x < m && !used[std::size_t(x)], "the sorted index is no permutation");
              used[std::size_t(x)] = true;
              if (i)
                VP_CHECK(val(at(o, first + i - 1)) <= val(x), "not sorted");
            }
          }
          ++vp::n_nontrivial;
          // through the tiles: the same as the arrays
          std::vector<ColType> types;
          for (SizeType i = 0; i < m; ++i)
            types.push_back(ColType((i * 7 + count * 3 + count / 4) % 4));
          const auto ev = values(p, int(count % 5));
          set(c, [&](SizeType i) { return i >= first && i < end ? types[std::size_t(i - first)] : ColType::Dense; });
          set(v, [&](SizeType i) { return i >= first && i < end ? ev[std::size_t(i - first)] : 0.; });
          set(b, [](SizeType) { return SizeType(-5); });
          set(o, [](SizeType) { return SizeType(-5); });
          const auto [k, udl] = tt::sync_wait(ei::stablePartitionIndexForDeflation<double>(b0, e0, c, v, a, b, o));
          outside(b, -5);
          outside(o, -5);
          idx_t x(static_cast<std::size_t>(m)), y(static_cast<std::size_t>(m));
          const auto [k2, udl2] = ei::stablePartitionIndexForDeflationArrays(m, types.data(), ev.data(), p.data(), x.data(), y.data());
          VP_CHECK(k == k2 && udl == udl2, "counts through tiles");
          for (SizeType i = 0; i < m; ++i)
            VP_CHECK(at(b, first + i) == x[std::size_t(i)] && at(o, first + i) == y[std::size_t(i)], "indices through tiles");
        } while (std::next_permutation(p.begin(), p.end()) && ++count < 24);
        for (SizeType s = b0 + 1; s < e0; ++s) {
          set(c, [](SizeType) { return ColType::Deflated; });
          ei::initColTypes(b0, s, e0, c);
          for (SizeType i = 0; i < n; ++i)
            VP_CHECK(at(c, i) == (i < first || i >= end ? ColType::Deflated : i < s * nb ? ColType::UpperHalf : ColType::LowerHalf), "initial type of column %ld", i);
        }
      }
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P32";
    s.rule = "all column types and sorting permutations of up to n columns with several orders of the deflated values, local and on every rank of every distribution within the bounds; all deflation inputs "
             "from small value sets; index operations on all tile ranges; non-trivial: a distinct input";
    for (SizeType n = 1; n <= (thorough ? 6 : 5); ++n) {
      const std::size_t parts = n >= 5 ? 16 : n == 4 ? 4 : 1;
      for (std::size_t p = 0; p < parts; ++p) {
        s.cases.push_back(vp::data_case(vp::fmt("partition of %ld columns, part %zu", n, p), [=] { partitions(n, p, parts, false, true); }));
        s.cases.push_back(vp::data_case(vp::fmt("distributed partition of %ld columns, part %zu", n, p), [=] { partitions(n, p, parts, true, n < (thorough ? 6 : 5)); }));
      }
    }
    for (SizeType n = 1; n <= (thorough ? 5 : 4); ++n) {
      const int parts = n >= 4 ? 16 : 1;
      for (int p = 0; p < parts; ++p)
        s.cases.push_back(vp::data_case(vp::fmt("deflation of %ld columns, part %d", n, p), [=] { deflation(n, p, parts); }));
    }
    for (SizeType nt = 1; nt <= 4; ++nt)
      for (SizeType nb = 1; nb <= 2; ++nb)
        for (SizeType last = 1; last <= nb; ++last) {
          auto c = vp::sched_case(vp::fmt("vectors of %ld tiles of %ld, last %ld", nt, nb, last), [=] { vectors(nt, nb, last); }, 0, vp::BASIC_POLICIES, false, true);
          s.cases.push_back(c);
        }
    return s;
  });
}
