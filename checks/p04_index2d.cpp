// P04: two-dimensional indices, sizes and ranges against their component-wise definition.
#include <set>
#include <sstream>

#include <dlaf/common/index2d.h>
#include <dlaf/common/range2d.h>
#include <dlaf/communication/index.h>
#include <dlaf/matrix/index.h>

#include "pure.hpp"

using namespace dlaf;
using namespace dlaf::common;
struct Tag;
using Pairs = std::vector<std::pair<long, long>>;

template <class I>
static void coords(long lo, long hi) {
  using Idx = Index2D<I, Tag>;
  using Sz = Size2D<I, Tag>;
  auto c = [](long v) { return static_cast<I>(v); };
  VP_CHECK(Idx() == Idx(c(-1), c(-1)) && !Idx().isValid(), "default index");
  for (long a = lo; a <= hi; ++a)
    for (long b = lo; b <= hi; ++b) {
      const Idx i(c(a), c(b));
      const Sz s(c(a), c(b));
      ++vp::n_nontrivial;
      VP_CHECK(i.row() == a && i.col() == b && s.rows() == a && s.cols() == b, "components (%ld,%ld)", a, b);
      VP_CHECK(i.template get<Coord::Row>() == a && i.template get<Coord::Col>() == b && i.get(Coord::Row) == a && i.get(Coord::Col) == b, "get");
      VP_CHECK(s.template get<Coord::Row>() == a && s.template get<Coord::Col>() == b && s.get(Coord::Row) == a && s.get(Coord::Col) == b, "get");
      VP_CHECK(Idx(Coord::Row, c(a), c(b)) == i && Idx(Coord::Col, c(b), c(a)) == i && Idx(Coord::Row, c(a)) == Idx(c(a), c(0)) &&
                   Idx(Coord::Col, c(a)) == Idx(c(0), c(a)),
               "by coordinate");
      VP_CHECK(Sz(Coord::Row, c(a), c(b)) == s && Sz(Coord::Col, c(b), c(a)) == s, "by coordinate");
      VP_CHECK(Idx(std::array<I, 2>{c(a), c(b)}) == i && Sz(std::array<I, 2>{c(a), c(b)}) == s, "array");
      VP_CHECK(i.isValid() == (a >= 0 && b >= 0) && s.isValid() == (a >= 0 && b >= 0), "valid (%ld,%ld)", a, b);
      VP_CHECK(transposed(i) == Idx(c(b), c(a)) && transposed(s) == Sz(c(b), c(a)), "transposed");
      Idx t = i;
      t.transpose();
      VP_CHECK(t == Idx(c(b), c(a)), "transpose");
      VP_CHECK(indexFromOrigin(s) == i && sizeFromOrigin(i) == s, "origin");
      if (a >= 0 && b >= 0) {
        VP_CHECK(s.isEmpty() == (a == 0 || b == 0), "empty (%ld,%ld)", a, b);
        VP_CHECK(s.linear_size() == a * b, "linear size (%ld,%ld)", a, b);
      }
      std::ostringstream os, ot;
      os << i;
      ot << s;
      const std::string e = "(" + std::to_string(a) + ", " + std::to_string(b) + ")";
      VP_CHECK(os.str() == e && ot.str() == e, "printed as %s", os.str().c_str());
      for (long u = lo; u <= hi; ++u)
        for (long v = lo; v <= hi; ++v) {
          const Idx j(c(u), c(v));
          const Sz z(c(u), c(v));
          VP_CHECK((i == j) == (a == u && b == v) && (i != j) == !(a == u && b == v), "equality of indices");
          VP_CHECK((s == z) == (a == u && b == v) && (s != z) == !(a == u && b == v), "equality of sizes");
          VP_CHECK(i.isIn(z) == (a >= 0 && b >= 0 && u >= 0 && v >= 0 && a < u && b < v), "(%ld,%ld) in (%ld,%ld)", a, b, u, v);
          VP_CHECK(i.isInOrOn(z) == (a >= 0 && b >= 0 && u >= 0 && v >= 0 && a <= u && b <= v), "(%ld,%ld) in or on (%ld,%ld)", a, b, u, v);
          VP_CHECK(i + z == Idx(c(a + u), c(b + v)), "index + size");
          VP_CHECK(i - z == Idx(c(a - u), c(b - v)), "index - size");
          VP_CHECK(i - j == Sz(c(a - u), c(b - v)), "index - index");
          VP_CHECK(s - z == Sz(c(a - u), c(b - v)), "size - size");
          VP_CHECK(s + z == Sz(c(a + u), c(b + v)), "size + size");
          if (u >= 0 && v >= 0)
            for (long m = 0; m <= hi; ++m)
              for (long n = 0; n <= hi; ++n)
                VP_CHECK(i.isInSub(j, Sz(c(m), c(n))) == (u <= a && a < u + m && v <= b && b < v + n), "(%ld,%ld) in sub (%ld,%ld)+(%ld,%ld)", a, b,
                         u, v, m, n);
        }
    }
}

template <class I, class L>
static void linear_one(long m, long n, long i, long j) {
  using Idx = Index2D<I, Tag>;
  using Sz = Size2D<I, Tag>;
  const Sz s(static_cast<I>(m), static_cast<I>(n));
  const Idx x(static_cast<I>(i), static_cast<I>(j));
  const long rm = i * n + j, cm = j * m + i;
  ++vp::n_nontrivial;
  VP_CHECK(computeCoordsRowMajor(rm, s) == x && computeCoords(Ordering::RowMajor, rm, s) == x, "coordinates of %ld in %ldx%ld row major", rm, m, n);
  VP_CHECK(computeCoordsColMajor(cm, s) == x && computeCoords(Ordering::ColumnMajor, cm, s) == x, "coordinates of %ld in %ldx%ld column major", cm, m, n);
  auto fits = [](long v) { return v >= 0 && static_cast<unsigned long>(v) <= static_cast<unsigned long>(std::numeric_limits<L>::max()); };
  if (fits(rm))
    VP_CHECK(static_cast<long>(computeLinearIndexRowMajor<L>(x, s)) == rm && static_cast<long>(computeLinearIndex<L>(Ordering::RowMajor, x, s)) == rm,
             "linear index of (%ld,%ld) in %ldx%ld row major", i, j, m, n);
  else
    VP_CHECK(vp::dies([&] { computeLinearIndexRowMajor<L>(x, s); }), "a linear index that does not fit is refused");
  if (fits(cm))
    VP_CHECK(static_cast<long>(computeLinearIndexColMajor<L>(x, s)) == cm && static_cast<long>(computeLinearIndex<L>(Ordering::ColumnMajor, x, s)) == cm,
             "linear index of (%ld,%ld) in %ldx%ld column major", i, j, m, n);
  else
    VP_CHECK(vp::dies([&] { computeLinearIndexColMajor<L>(x, s); }), "a linear index that does not fit is refused");
}

template <class I, class L>
static void linear(long maxm, const std::vector<long>& large) {
  for (long m = 1; m <= maxm; ++m)
    for (long n = 1; n <= maxm; ++n)
      for (long i = 0; i < m; ++i)
        for (long j = 0; j < n; ++j)
          linear_one<I, L>(m, n, i, j);
  for (long m : large)
    for (long n : large) {
      if (m > std::numeric_limits<I>::max() || n > std::numeric_limits<I>::max())
        continue;
      if (__int128(m) * n > __int128(1) << 62)
        continue;
      for (long i : {0l, 1l, m / 2, m - 1})
        for (long j : {0l, 1l, n / 2, n - 1})
          if (i < m && j < n)
            linear_one<I, L>(m, n, i, j);
    }
}

template <class I>
static void range_one(const IterableRange2D<I, Tag>& r, long bi, long bj, long m, long n, const char* how) {
  using Idx = Index2D<I, Tag>;
  std::vector<std::pair<long, long>> seen;
  for (auto x : r) {
    seen.push_back({x.row(), x.col()});
    VP_CHECK(static_cast<long>(seen.size()) <= m * n, "%s: begin (%ld,%ld) size %ldx%ld: too many indices", how, bi, bj, m, n);
  }
  std::vector<std::pair<long, long>> exp;
  for (long j = 0; j < n; ++j)
    for (long i = 0; i < m; ++i)
      exp.push_back({bi + i, bj + j});
  ++vp::n_nontrivial;
  VP_CHECK(seen == exp, "%s: begin (%ld,%ld) size %ldx%ld", how, bi, bj, m, n);
  VP_CHECK(r.empty() == exp.empty() && (r.begin() == r.end()) == exp.empty() && r.end() - r.begin() == m * n, "%s: empty", how);
  // random access
  auto b = r.begin(), e = r.end();
  const long k = m * n;
  for (long p = 0; p < k; ++p) {
    const Idx x(static_cast<I>(exp[static_cast<std::size_t>(p)].first), static_cast<I>(exp[static_cast<std::size_t>(p)].second));
    auto it = b + p;
    VP_CHECK(*it == x && p + b == it && b[p] == x && it->row() == x.row() && *(e - (k - p)) == x, "%s: element %ld of %ldx%ld", how, p, m, n);
    auto it2 = e;
    it2 -= k - p;
    VP_CHECK(it2 == it && !(it2 != it) && it2 - b == p && e - it2 == k - p, "%s: distance", how);
    for (long q = 0; q < k; ++q) {
      auto iq = b;
      iq += q;
      VP_CHECK((it < iq) == (p < q) && (it <= iq) == (p <= q) && (it > iq) == (p > q) && (it >= iq) == (p >= q) && (it == iq) == (p == q), "%s: order",
               how);
    }
    auto pre = it, post = it;
    VP_CHECK(*post++ == x && ++pre == post && post - it == 1, "%s: increment", how);
    VP_CHECK(post-- - it == 1 && post == it && *post == x && --pre == it && *pre == x, "%s: decrement", how);
  }
  if (m * n <= 40)
    for (long i = bi - 1; i <= bi + m + 1; ++i)
      for (long j = bj - 1; j <= bj + n + 1; ++j)
        VP_CHECK(isIndexInRange(Idx(static_cast<I>(i), static_cast<I>(j)), r) == (bi <= i && i < bi + m && bj <= j && j < bj + n),
                 "%s: (%ld,%ld) in range", how, i, j);
}

template <class I>
static void ranges(long maxm) {
  using Idx = Index2D<I, Tag>;
  using Sz = Size2D<I, Tag>;
  auto c = [](long v) { return static_cast<I>(v); };
  for (long m = 0; m <= maxm; ++m)
    for (long n = 0; n <= maxm; ++n) {
      range_one<I>(iterate_range2d(Sz(c(m), c(n))), 0, 0, m, n, "size");
      range_one<I>(iterate_range2d(Idx(c(m), c(n))), 0, 0, m, n, "end");
      for (long bi : {0, 1, 3})
        for (long bj : {0, 2, 5}) {
          range_one<I>(iterate_range2d(Idx(c(bi), c(bj)), Sz(c(m), c(n))), bi, bj, m, n, "begin, size");
          range_one<I>(iterate_range2d(Idx(c(bi), c(bj)), Idx(c(bi + m), c(bj + n))), bi, bj, m, n, "begin, end");
        }
    }
  // ranges with more indices than the index type can count
  for (long m : {1l, 46341l, 65536l, 70001l, 2147483646l})
    for (long n : {1l, 2l, 46341l, 65536l, 70001l}) {
      const long b = 1;
      if (m + b > std::numeric_limits<I>::max() || n + b > std::numeric_limits<I>::max())
        continue;
      for (int form = 0; form < 3; ++form) {
        const long o = form == 0 ? 0 : b;
        const auto r = form == 0 ? iterate_range2d(Sz(c(m), c(n))) : form == 1 ? iterate_range2d(Idx(c(b), c(b)), Sz(c(m), c(n))) : iterate_range2d(Idx(c(b), c(b)), Idx(c(b + m), c(b + n)));
        ++vp::n_nontrivial;
        VP_CHECK(!r.empty() && r.end() - r.begin() == m * n, "range of %ldx%ld: number of indices", m, n);
        for (long p : {0l, m - 1, m, m * n / 2, m * (n - 1), m * n - 1})
          if (p < m * n)
            VP_CHECK(*(r.begin() + p) == Idx(c(o + p % m), c(o + p / m)) && *(r.end() - (m * n - p)) == Idx(c(o + p % m), c(o + p / m)), "range of %ldx%ld: index %ld", m, n, p);
      }
    }
  VP_CHECK(vp::dies([&] { iterate_range2d(Idx(c(2), c(2)), Idx(c(1), c(3))); }) && vp::dies([&] { iterate_range2d(Idx(c(2), c(2)), Idx(c(3), c(1))); }),
           "reversed ranges are refused");
}

// ranges with more indices than IndexT can count
template <class I>
static void large_ranges() {
  using Idx = Index2D<I, Tag>;
  using Sz = Size2D<I, Tag>;
  std::vector<long> v = {1, 2, 100, 127, 181, 182, 32767, 46340, 46341, 65535, 65536, 100000, 2147483647l, 4294967296l};
  for (long m : v)
    for (long n : v) {
      if (m > std::numeric_limits<I>::max() || n > std::numeric_limits<I>::max() || __int128(m) * n > __int128(1) << 62)
        continue;
      const Sz s(static_cast<I>(m), static_cast<I>(n));
      const Idx z(static_cast<I>(0), static_cast<I>(0)), e(static_cast<I>(m), static_cast<I>(n));
      VP_CHECK(s.linear_size() == m * n, "linear size %ldx%ld is %ld", m, n, s.linear_size());
      for (auto& r : {iterate_range2d(s), iterate_range2d(z, s), iterate_range2d(z, e), iterate_range2d(e)}) {
        ++vp::n_nontrivial;
        VP_CHECK(r.end() - r.begin() == m * n, "number of indices of %ldx%ld is %ld", m, n, r.end() - r.begin());
        VP_CHECK(*(r.end() - 1) == Idx(static_cast<I>(m - 1), static_cast<I>(n - 1)), "last index of %ldx%ld", m, n);
        VP_CHECK(r.begin()[m * n / 2] == Idx(static_cast<I>(m * n / 2 % m), static_cast<I>(m * n / 2 / m)), "middle index of %ldx%ld", m, n);
      }
    }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P04";
    s.rule = "every pair of coordinates, size, origin and index within a small window for each index type, and borders of the integer types; "
             "non-trivial: a distinct (type, coordinates/size/range)";
    const long hi = thorough ? 7 : 5, mm = thorough ? 20 : 11, rm = thorough ? 11 : 7;
    const std::vector<long> large = {1, 2, 127, 128, 255, 256, 257, 32767, 32768, 46341, 65535, 65536, 100003, 2147483647l, 2147483648l, 4294967297l, 1l << 40};
#define FOR(T)                                                                                             \
  s.cases.push_back(vp::data_case("coords " #T, [=] { coords<T>(-2, hi); }));                              \
  s.cases.push_back(vp::data_case("linear " #T " as SizeType", [=] { linear<T, SizeType>(mm, large); }));  \
  s.cases.push_back(vp::data_case("linear " #T " as int", [=] { linear<T, int>(mm, large); }));            \
  s.cases.push_back(vp::data_case("linear " #T " as unsigned", [=] { linear<T, unsigned>(mm, large); }));  \
  s.cases.push_back(vp::data_case("linear " #T " as short", [=] { linear<T, short>(mm, large); }));        \
  s.cases.push_back(vp::data_case("linear " #T " as std::size_t", [=] { linear<T, std::size_t>(mm, large); })); \
  s.cases.push_back(vp::data_case("ranges " #T, [=] { ranges<T>(rm); }));                                  \
  s.cases.push_back(vp::data_case("large ranges " #T, [=] { large_ranges<T>(); }));
    FOR(int)
    FOR(long)
    FOR(short)
    FOR(signed char)
    s.cases.push_back(vp::data_case("coordinates", [] {
      VP_CHECK(orthogonal(Coord::Row) == Coord::Col && orthogonal(Coord::Col) == Coord::Row, "orthogonal");
      VP_CHECK(std::string(coord2str(Coord::Row)) == "ROW" && std::string(coord2str(Coord::Col)) == "COL", "names");
    }));
    return s;
  });
}
