// P37: the text a matrix is printed as stands for exactly its elements, once read back.
#include <cmath>
#include <complex>
#include <cstring>
#include <sstream>
#include <vector>

#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/print_csv.h>
#include <dlaf/matrix/print_numpy.h>

#include "algo.hpp"

using namespace algo;
using matrix::internal::MatrixRef;
constexpr auto D = Device::CPU;

namespace {
// ---- what Python makes of the numpy format ----------------------------------------------------------
using W = std::complex<double>;

struct Text {
  const char* p;
  const std::string whole;
  Text(std::string s) : whole(std::move(s)) {
    p = whole.c_str();
  }
  [[noreturn]] void bad(const char* what) const {
    vp::violation(vp::fmt("the output is not understood (%s) at '%s' of '%s'", what, std::string(p).substr(0, 40).c_str(), whole.substr(0, 400).c_str()));
    std::abort();
  }
  bool has(const char* s) {
    const auto n = std::strlen(s);
    if (std::strncmp(p, s, n) != 0)
      return false;
    p += n;
    return true;
  }
  void spaces() {
    while (*p == ' ')
      ++p;
  }
  void want(const char* s) {
    if (!has(s))
      bad(s);
  }
  SizeType integer() {
    spaces();
    if (*p < '0' || *p > '9')
      bad("integer");
    char* e;
    const long v = std::strtol(p, &e, 10);
    p = e;
    return v;
  }
  std::pair<SizeType, SizeType> shape() {
    want("(");
    const SizeType a = integer();
    spaces();
    want(",");
    const SizeType b = integer();
    spaces();
    want(")");
    return {a, b};
  }
  // an unsigned real literal of Python; true if it is the imaginary part of a number
  bool literal(double& v) {
    if (has("np.nan"))
      v = std::nan("");
    else if (has("np.inf"))
      v = std::numeric_limits<double>::infinity();
    else {
      if (!((*p >= '0' && *p <= '9') || *p == '.'))
        bad("number");
      char* e;
      v = std::strtod(p, &e);
      p = e;
    }
    return has("j");
  }
  double real_value() {
    spaces();
    double sign = 1, v;
    if (has("-"))
      sign = -1;
    else
      has("+");
    if (literal(v))
      bad("real number");
    return sign * v;
  }
  // a sum of signed literals, or complex(re, im)
  W expression() {
    spaces();
    if (has("complex(")) {
      const double re = real_value();
      spaces();
      want(",");
      const double im = real_value();
      spaces();
      want(")");
      return {re, im};
    }
    W sum(0, 0);
    bool first = true;
    while (true) {
      spaces();
      double sign = 1, v;
      if (has("-"))
        sign = -1;
      else if (!has("+") && !first)
        break;
      spaces();
      if (literal(v))
        sum = first ? W(0, sign * v) : W(sum.real(), sum.imag() + sign * v);
      else
        sum = first ? W(sign * v, 0) : W(sum.real() + sign * v, sum.imag());
      first = false;
    }
    return sum;
  }
};

struct Array {  // of Python, by rows
  SizeType m = 0, n = 0;
  std::vector<W> v;
  W& operator()(SizeType i, SizeType j) {
    return v[to_sizet(i * n + j)];
  }
};

template <class T>
void dtype(Text& t) {
  // (the precision of the type in Python has to be sufficient for what is printed)
  t.want(", dtype=np.");
  if (isComplex_v<T>) {
    if (!(t.has("csingle") || t.has("cdouble") || t.has("complex64") || t.has("complex128")))
      t.bad("complex type");
  }
  else if (!(t.has("single") || t.has("double") || t.has("float32") || t.has("float64")))
    t.bad("real type");
}

// np.array([...], dtype=...).reshape(m, n)[.T]
template <class T>
Array array(Text& t) {
  t.want("np.array([");
  Array a;
  while (t.spaces(), !t.has("]")) {
    a.v.push_back(t.expression());
    t.spaces();
    if (!t.has(",") && *t.p != ']')
      t.bad("list");
  }
  dtype<T>(t);
  t.want(")");
  a.m = SizeType(a.v.size());
  a.n = 1;
  if (t.has(".reshape")) {
    const auto s = t.shape();
    VP_CHECK(s.first * s.second == SizeType(a.v.size()), "%zu numbers cannot be arranged in an array of %ld x %ld", a.v.size(), long(s.first), long(s.second));
    a.m = s.first;
    a.n = s.second;
  }
  if (t.has(".T")) {
    Array b;
    b.m = a.n;
    b.n = a.m;
    b.v.resize(a.v.size());
    for (SizeType i = 0; i < b.m; ++i)
      for (SizeType j = 0; j < b.n; ++j)
        b(i, j) = a(j, i);
    a = b;
  }
  t.want("\n");
  return a;
}

// ---- values -----------------------------------------------------------------------------------------
bool close(double got, double want, int digits) {
  if (std::isnan(want))
    return std::isnan(got);
  if (std::isinf(want) || want == 0)
    return got == want;
  return std::signbit(got) == std::signbit(want) && std::abs(got - want) <= 0.5000001 * std::pow(10., 1 - digits) * std::abs(want);
}
template <class T>
bool close(W got, T want, int digits) {
  return close(got.real(), double(std::real(want)), digits) && close(got.imag(), double(std::imag(want)), digits);
}
const std::vector<double> alphabet = {0.,      1.,     -1.,        0.5,  -0.25,  3.,       -7.,     1.25e-7, -2.5e-5, 1e10, -1e20, 123456., -1234567., 0.1, 1. / 3, -99999.96,
                                      -0., 1e-38, 3e38, std::numeric_limits<double>::infinity(), -std::numeric_limits<double>::infinity(), std::nan("")};
template <class T>
T value(int k, int l) {
  using R = BaseType<T>;
  if constexpr (isComplex_v<T>)
    return T(R(alphabet[std::size_t(k)]), R(alphabet[std::size_t(l)]));
  else
    return R(alphabet[std::size_t(k)]);
}
// values that tell the elements apart
template <class T>
T plain(SizeType i, SizeType j) {
  using R = BaseType<T>;
  const R x = R(1 + i + 16 * j) * ((i + j) % 2 ? R(-1) : R(1));
  if constexpr (isComplex_v<T>)
    return T(x, R(j - i) + R(0.5));
  else
    return x;
}

// csv: one row per line, every number followed by a comma
template <class T>
Array csv(Text& t, SizeType m, SizeType n) {
  Array a;
  a.m = m;
  a.n = n;
  auto real = [&] {
    char* e;
    const double v = std::strtod(t.p, &e);
    if (e == t.p)
      t.bad("number");
    t.p = e;
    return v;
  };
  for (SizeType i = 0; i < m; ++i) {
    for (SizeType j = 0; j < n; ++j) {
      if (isComplex_v<T>) {
        t.want("(");
        const double re = real();
        t.want(",");
        const double im = real();
        t.want(")");
        a.v.emplace_back(re, im);
      }
      else
        a.v.emplace_back(real(), 0.);
      if (!t.has(",") && j + 1 < n)
        t.bad("row too short");
    }
    t.want("\n");
  }
  return a;
}

// ---- tiles ------------------------------------------------------------------------------------------
template <class T, class F>
void print_tile(SizeType m, SizeType n, SizeType ld, F f) {
  using matrix::Tile;
  vp::HbIgnore h;
  std::vector<T> mem(to_sizet(ld * n + 1), T(-77));
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      mem[to_sizet(i + j * ld)] = f(i, j);
  const Tile<const T, D> tile(TileElementSize(m, n), memory::MemoryView<T, D>(mem.data(), m == 0 || n == 0 ? 0 : m + (n - 1) * ld), ld);
  for (int digits : {0, 4, 17}) {  // 0: a new stream
    auto stream = [&] {
      std::ostringstream os;
      if (digits)
        os.precision(digits);
      return os;
    };
    {
      auto os = stream();
      matrix::print(format::numpy{}, tile, os);
      Text t(os.str());
      Array a = array<T>(t);
      VP_CHECK(*t.p == 0, "more than a tile is printed: '%s'", t.p);
      VP_CHECK(a.m == m && a.n == n, "a tile of %ld x %ld elements is printed as an array of %ld x %ld", long(m), long(n), long(a.m), long(a.n));
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i)
          VP_CHECK(close(a(i, j), f(i, j), 6), "numpy: element (%ld,%ld) is %s instead of %s in '%s'", long(i), long(j), str(a(i, j)).c_str(), str(f(i, j)).c_str(), t.whole.c_str());
    }
    {
      auto os = stream();
      matrix::print(format::csv{}, tile, os);
      Text t(os.str());
      Array a = csv<T>(t, m, n);
      VP_CHECK(*t.p == 0, "more than a tile is printed: '%s'", t.p);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i)
          VP_CHECK(close(a(i, j), f(i, j), 5), "csv: element (%ld,%ld) is %s instead of %s in '%s'", long(i), long(j), str(a(i, j)).c_str(), str(f(i, j)).c_str(), t.whole.c_str());
    }
  }
}

template <class T>
void values() {
  const int k = pick(int(alphabet.size())), l = isComplex_v<T> ? pick(int(alphabet.size())) : 0;
  vp::context(vp::fmt("value %g %g", alphabet[std::size_t(k)], alphabet[std::size_t(l)]));
  vp::pool_reset();
  vp::run_ranks({1, 1, false}, [&](int) {
    for (int at = 0; at < 4; ++at)
      print_tile<T>(2, 2, 2, [&](SizeType i, SizeType j) { return at == i + 2 * j ? value<T>(k, l) : plain<T>(i, j); });
  });
  ++vp::n_nontrivial;
}

template <class T>
void shapes(SizeType n) {
  vp::pool_reset();
  vp::run_ranks({1, 1, false}, [&](int) {
    for (SizeType i = 0; i <= n; ++i)
      for (SizeType j = 0; j <= n; ++j)
        for (SizeType pad = 0; pad < 2; ++pad)
          print_tile<T>(i, j, std::max<SizeType>(1, i + pad), plain<T>);
  });
}

// ---- matrices ---------------------------------------------------------------------------------------
// The statements printed by all the ranks, executed by Python, give the matrix
template <class T, class F>
void check_numpy(const std::string& sym, const std::vector<std::string>& out, SizeType m, SizeType n, F f) {
  std::vector<int> seen(to_sizet(m * n), 0);
  for (const auto& o : out) {
    Text t(o);
    t.want((sym + " = np.zeros(").c_str());
    const auto s = t.shape();
    VP_CHECK(s.first == m && s.second == n, "a matrix of %ld x %ld elements is printed as %ld x %ld", long(m), long(n), long(s.first), long(s.second));
    dtype<T>(t);
    t.want(")\n");
    while (*t.p) {
      t.want((sym + "[").c_str());
      const SizeType i0 = t.integer();
      t.want(":");
      const SizeType i1 = t.integer();
      t.want(",");
      const SizeType j0 = t.integer();
      t.want(":");
      const SizeType j1 = t.integer();
      t.want("] = ");
      Array a = array<T>(t);
      VP_CHECK(0 <= i0 && i0 <= i1 && i1 <= m && 0 <= j0 && j0 <= j1 && j1 <= n && a.m == i1 - i0 && a.n == j1 - j0, "an array of %ld x %ld elements is assigned to [%ld:%ld,%ld:%ld] of %ld x %ld", long(a.m), long(a.n), long(i0),
               long(i1), long(j0), long(j1), long(m), long(n));
      for (SizeType i = 0; i < a.m; ++i)
        for (SizeType j = 0; j < a.n; ++j) {
          const T want = f(i0 + i, j0 + j);
          VP_CHECK(close(a(i, j), want, 6), "numpy: element (%ld,%ld) is %s instead of %s", long(i0 + i), long(j0 + j), str(a(i, j)).c_str(), str(want).c_str());
          ++seen[to_sizet(i0 + i + (j0 + j) * m)];
        }
    }
  }
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i)
      VP_CHECK(seen[to_sizet(i + j * m)] == 1, "numpy: element (%ld,%ld) is printed %d times", long(i), long(j), seen[to_sizet(i + j * m)]);
}

template <class T>
void matrices(int gr, int gc, SizeType max, SizeType max_tile, bool refs) {
  const SizeType m = pick(int(max) + 1), n = pick(int(max) + 1), mb = 1 + pick(int(max_tile)), nb = 1 + pick(int(max_tile));
  const SizeType tr = 1 + pick(2), tc = 1 + pick(2);  // tiles per block
  const int sr = pick(gr), sc = pick(gc);
  SizeType oi = 0, oj = 0, rm = m, rn = n;
  if (refs) {
    oi = pick(int(m) + 1);
    oj = pick(int(n) + 1);
    rm = pick(int(m - oi) + 1);
    rn = pick(int(n - oj) + 1);
  }
  vp::context(vp::fmt("%ldx%ld tiles of %ldx%ld, %ldx%ld tiles per block, grid %dx%d from (%d,%d), part (%ld,%ld) %ldx%ld", long(m), long(n), long(mb), long(nb), long(tr), long(tc), gr, gc, sr, sc, long(oi), long(oj), long(rm), long(rn)));
  vp::pool_reset();
  const bool local = gr * gc == 1;
  std::vector<std::string> out(to_sizet(gr * gc)), text(to_sizet(gr * gc));
  vp::ranks(gr * gc, 2, [&](int rank) {
    const comm::Index2D rk(rank % gr, rank / gr);
    Matrix<T, D> mat(Distribution(GlobalElementSize(m, n), GlobalElementSize(mb * tr, nb * tc), TileElementSize(mb, nb), comm::Size2D(gr, gc), rk, comm::Index2D(sr, sc)));
    fill(mat, [](SizeType i, SizeType j) { return plain<T>(i, j) + T(1000); });
    // what has been posted before is printed, what is posted later is not
    fill(mat, plain<T>);
    std::ostringstream os, oc;
    if (refs) {
      MatrixRef<const T, D> ref(mat, {{oi, oj}, {rm, rn}});
      matrix::print(format::numpy{}, "a_1", ref, os);
    }
    else {
      Matrix<const T, D>& cm = mat;
      matrix::print(format::numpy{}, "a_1", cm, os);
      matrix::print(format::csv{}, "a_1", cm, oc);
    }
    fill(mat, [](SizeType i, SizeType j) { return plain<T>(i, j) + T(2000); });
    vp::HbIgnore h;
    out[to_sizet(rank)] = os.str();
    text[to_sizet(rank)] = oc.str();
  });
  check_numpy<T>("a_1", out, rm, rn, [&](SizeType i, SizeType j) { return plain<T>(i + oi, j + oj); });
  if (!refs && local) {
    Text t(text[0]);
    t.want("a_1\n");
    Array a = csv<T>(t, m, n);
    VP_CHECK(*t.p == 0, "csv: more than the matrix is printed: '%s'", t.p);
    for (SizeType j = 0; j < n; ++j)
      for (SizeType i = 0; i < m; ++i)
        VP_CHECK(close(a(i, j), plain<T>(i, j), 6), "csv: element (%ld,%ld) is %s instead of %s", long(i), long(j), str(a(i, j)).c_str(), str(plain<T>(i, j)).c_str());
  }
  ++vp::n_nontrivial;
}
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P37";
    s.rule = "all values of the list at every position of a tile, all shapes of tiles, all matrices, distributions and references to parts within the bound, printed to streams of several precisions, read back by an "
             "independent reader; programs of writes, printing, and writes under all schedules within the deviation bound; non-trivial: what is printed got read back";
    auto add = [&](std::string name, std::function<void()> f) { s.cases.push_back(vp::history_case(name, f)); };
    add("values float", [] { values<float>(); });
    add("values double", [] { values<double>(); });
    add("values complex float", [] { values<std::complex<float>>(); });
    add("values complex double", [] { values<std::complex<double>>(); });
    add("shapes float", [=] { shapes<float>(thorough ? 5 : 3); });
    add("shapes double", [=] { shapes<double>(thorough ? 5 : 3); });
    add("shapes complex", [=] { shapes<std::complex<float>>(thorough ? 5 : 3); });
    for (auto g : std::vector<std::pair<int, int>>{{1, 1}, {2, 1}, {1, 2}, {2, 2}, {3, 1}}) {
      if (g.first == 3 && !thorough)
        continue;
      const SizeType max = g.first * g.second == 1 ? (thorough ? 6 : 4) : thorough ? 5 : 3;
      s.cases.push_back(vp::sched_case(vp::fmt("matrix double %dx%d", g.first, g.second), [=] { matrices<double>(g.first, g.second, max, 2, false); }, 0, vp::BASIC_POLICIES, false));
      s.cases.push_back(vp::sched_case(vp::fmt("matrix complex %dx%d", g.first, g.second), [=] { matrices<std::complex<double>>(g.first, g.second, thorough ? max : 2, 2, false); }, 0, vp::BASIC_POLICIES, false));
      s.cases.push_back(vp::sched_case(vp::fmt("reference double %dx%d", g.first, g.second), [=] { matrices<double>(g.first, g.second, thorough && g.first * g.second < 3 ? 4 : 3, 2, true); }, 0, 1u << vp::LIFO, false, false));
    }
    s.cases.push_back(vp::sched_case("schedules", [=] { matrices<double>(1, 1, 2, 1, false); }, thorough ? 2 : 1));
    s.samples = {"numpy: 'a_1[0:2,2:3] = np.array([33,-34,], dtype=np.single).reshape(1, 2).T' is read back as rows 0..1 of column 2",
                 "csv: a local 4x4 matrix with blocks of 2x2 in tiles of 1x1"};
    return s;
  });
}
