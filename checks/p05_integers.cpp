// P05: integer conversions and helpers against 128-bit arithmetic.
#include <cstdint>
#include <limits>

#include <dlaf/types.h>
#include <dlaf/util_math.h>
#include <dlaf/util_string.h>

#include "pure.hpp"

using namespace dlaf;
using i128 = __int128;

template <class To>
static bool fits(i128 v) {
  return v >= i128(std::numeric_limits<To>::min()) && v <= i128(std::numeric_limits<To>::max());
}
template <class From>
static std::vector<i128> values(bool thorough) {
  std::vector<i128> r;
  const i128 lo = i128(std::numeric_limits<From>::min()), hi = i128(std::numeric_limits<From>::max());
  if (sizeof(From) <= 1 || (thorough && sizeof(From) <= 2)) {
    for (i128 v = lo; v <= hi; ++v)
      r.push_back(v);
    return r;
  }
  for (int b = 0; b <= 64; ++b)
    for (int d = -2; d <= 2; ++d)
      for (int s : {-1, 1}) {
        const i128 v = s * ((i128(1) << b) + d);
        if (v >= lo && v <= hi)
          r.push_back(v);
      }
  for (int d = 0; d < 3; ++d) {
    r.push_back(lo + d);
    r.push_back(hi - d);
  }
  for (i128 v = -300; v <= 300; ++v)
    if (v >= lo && v <= hi)
      r.push_back(v);
  std::sort(r.begin(), r.end());
  r.erase(std::unique(r.begin(), r.end()), r.end());
  return r;
}

template <class To, class F>
static void conv(const char* what, i128 v, F f) {
  To res{};
  bool died = vp::dies([&] { res = f(); });
  ++vp::n_nontrivial;
  if (fits<To>(v))
    VP_CHECK(!died && i128(res) == v, "%s: value %ld (fits) %s %ld", what, long(v), died ? "is refused" : "becomes", long(res));
  else
    VP_CHECK(died, "%s: value %ld does not fit but is silently converted to %ld", what, long(v), long(res));
}

template <class From, class To>
static void pair(bool thorough) {
  for (i128 v : values<From>(thorough)) {
    const From x = static_cast<From>(v);
    conv<To>("integral_cast", v, [&] { return integral_cast<To>(x); });
    if constexpr (std::is_signed_v<To>)
      conv<To>("to_signed", v, [&] { return to_signed<To>(x); });
    else
      conv<To>("to_unsigned", v, [&] { return to_unsigned<To>(x); });
  }
}
template <class From>
static void named(bool thorough) {
  for (i128 v : values<From>(thorough)) {
    const From x = static_cast<From>(v);
    conv<int>("to_int", v, [&] { return to_int(x); });
    conv<unsigned>("to_uint", v, [&] { return to_uint(x); });
    conv<std::size_t>("to_sizet", v, [&] { return to_sizet(x); });
    conv<SizeType>("to_SizeType", v, [&] { return to_SizeType(x); });
    static_assert(std::is_same_v<decltype(to_int(x)), int> && std::is_same_v<decltype(to_uint(x)), unsigned> &&
                  std::is_same_v<decltype(to_sizet(x)), std::size_t> && std::is_same_v<decltype(to_SizeType(x)), SizeType>);
  }
}

// sums and products of mixed types
template <class A, class B>
static void arith() {
  auto va = values<A>(false), vb = values<B>(false);
  auto pick = [](std::vector<i128>& v) {
    std::vector<i128> r;
    for (std::size_t i = 0; i < v.size(); i += 1 + v.size() / 90)
      r.push_back(v[i]);
    for (i128 x : {i128(0), i128(1), i128(2), i128(3), i128(46341), i128(65536), i128(1) << 31, i128(1) << 32})
      r.push_back(x);
    return r;
  };
  for (i128 a : pick(va))
    for (i128 b : pick(vb)) {
      if (!fits<A>(a) || !fits<B>(b))
        continue;
      const A x = static_cast<A>(a);
      const B y = static_cast<B>(b);
      const i128 sum = a + b;
      const bool inp = fits<SizeType>(a) && fits<SizeType>(b);
      ++vp::n_nontrivial;
      if (inp && fits<SizeType>(sum))
        VP_CHECK(i128(util::ptrdiff_t::sum(x, y)) == sum, "ptrdiff_t::sum(%ld, %ld)", long(a), long(b));
      const bool small = a < (i128(1) << 62) && a > -(i128(1) << 62);
      if (inp && small && fits<SizeType>(a * b))
        VP_CHECK(i128(util::ptrdiff_t::mul(x, y)) == a * b, "ptrdiff_t::mul(%ld, %ld)", long(a), long(b));
      if (a >= 0 && b >= 0) {
        if (fits<std::size_t>(sum))
          VP_CHECK(i128(util::size_t::sum(x, y)) == sum, "size_t::sum(%ld, %ld)", long(a), long(b));
        if (small && fits<std::size_t>(a * b))
          VP_CHECK(i128(util::size_t::mul(x, y)) == a * b, "size_t::mul(%ld, %ld)", long(a), long(b));
      }
      else {
        VP_CHECK(vp::dies([&] { (void) util::size_t::sum(x, y); }) && vp::dies([&] { (void) util::size_t::mul(x, y); }), "negative operand (%ld, %ld) accepted by size_t arithmetic", long(a), long(b));
      }
    }
}

template <class T>
static void ceil_div(long maxn, long maxd) {
  for (i128 n = 0; n <= maxn; ++n)
    for (i128 d = 1; d <= maxd; ++d) {
      if (!fits<T>(n + d - 1))
        continue;
      ++vp::n_nontrivial;
      const i128 q = util::ceilDiv(static_cast<T>(n), static_cast<T>(d));
      VP_CHECK(q * d >= n && (q - 1) * d < n && q >= 0, "ceilDiv(%ld, %ld) = %ld", long(n), long(d), long(q));
    }
  for (i128 n : values<T>(false))
    for (i128 d : values<T>(false)) {
      if (n < 0 || d <= 0 || !fits<T>(n + d))
        continue;
      ++vp::n_nontrivial;
      const i128 q = util::ceilDiv(static_cast<T>(n), static_cast<T>(d));
      VP_CHECK(q == (n == 0 ? 0 : (n - 1) / d + 1), "ceilDiv(%ld, %ld) = %ld", long(n), long(d), long(q));
    }
}

// interleaveSplits: the cuts of two block structures with the given offsets, in order, without repetition
static void splits(long maxl) {
  for (SizeType l = 1; l <= maxl; ++l)
    for (SizeType b = 1; b <= l + 2; ++b)
      for (SizeType o1 = 0; o1 <= b; ++o1)
        for (SizeType o2 = 0; o2 <= b; ++o2) {
          std::vector<SizeType> exp;
          for (SizeType x = 0; x <= l; ++x)
            if (x == 0 || x == l || (x >= o1 && (x - o1) % b == 0) || (x >= o2 && (x - o2) % b == 0))
              exp.push_back(x);
          ++vp::n_nontrivial;
          VP_CHECK(util::interleaveSplits(l, b, o1, o2) == exp, "l=%ld b=%ld o1=%ld o2=%ld", l, b, o1, o2);
        }
}

static void percent() {
  for (SizeType n = 0; n <= 400; ++n) {
    SizeType last = 0;
    for (int p = 0; p <= 1000; ++p) {
      const double pc = p / 10.0;
      const SizeType i = util::internal::percent_to_index(n, pc);
      ++vp::n_nontrivial;
      VP_CHECK(0 <= i && i <= n, "percent_to_index(%ld, %g) = %ld is outside of the array", n, pc, i);
      VP_CHECK(i >= last, "percent_to_index(%ld, %g) = %ld is smaller than the one before (%ld)", n, pc, i, last);
      last = i;
      if (p == 0)
        VP_CHECK(i == 0, "0 percent of %ld is %ld", n, i);
      if (p == 1000)
        VP_CHECK(i == n, "100 percent of %ld is %ld", n, i);
      const double exact = double(n) * p / 1000.0;
      VP_CHECK(double(i) > exact - 1.000001 && double(i) < exact + 1.000001, "percent_to_index(%ld, %g) = %ld", n, pc, i);
    }
  }
}

static void misc() {
  for (int c = 0; c < 256; ++c) {
    const std::string s = std::string("aZ") + static_cast<char>(c) + "Q9";
    std::string e = s;
    for (auto& x : e)
      if (x >= 'A' && x <= 'Z')
        x = static_cast<char>(x - 'A' + 'a');
    VP_CHECK(util::copy_to_lower(s) == e, "copy_to_lower of character %d", c);
    ++vp::n_nontrivial;
  }
  const double inf = std::numeric_limits<double>::infinity();
  for (double a : {-inf, -2., -1e-320, -0., 0., 1e-320, 3., inf})
    for (double b : {-inf, -2., -1e-320, -0., 0., 1e-320, 3., inf}) {
      VP_CHECK(util::sameSign(a, b) == (std::signbit(a) == std::signbit(b)), "sameSign(%g, %g)", a, b);
      VP_CHECK(util::sameSign(float(a), float(b)) == (std::signbit(float(a)) == std::signbit(float(b))), "sameSign(%g, %g)", a, b);
    }
  VP_CHECK(total_ops<double>(3, 5) == 8 && total_ops<float>(3, 5) == 8 && total_ops<std::complex<double>>(3, 5) == 36, "total_ops");
  VP_CHECK(dlaf::conj(std::complex<double>(1, 2)) == std::complex<double>(1, -2) && dlaf::conj(3.5) == 3.5, "conj");
}

template <class From>
static void from(vp::Suite& s, const char* n, bool th) {
  s.cases.push_back(vp::data_case(std::string(n) + " to int8", [=] { pair<From, std::int8_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to uint8", [=] { pair<From, std::uint8_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to int16", [=] { pair<From, std::int16_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to uint16", [=] { pair<From, std::uint16_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to int32", [=] { pair<From, std::int32_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to uint32", [=] { pair<From, std::uint32_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to int64", [=] { pair<From, std::int64_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to uint64", [=] { pair<From, std::uint64_t>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to long long", [=] { pair<From, long long>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " to unsigned long long", [=] { pair<From, unsigned long long>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " named", [=] { named<From>(th); }));
  s.cases.push_back(vp::data_case(std::string(n) + " arithmetic", [=] {
    arith<From, std::int8_t>();
    arith<From, int>();
    arith<From, unsigned>();
    arith<From, SizeType>();
    arith<From, std::size_t>();
  }));
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P05";
    s.rule = "every value of the 8-bit source types (16-bit ones too in the thorough tier) and all powers of two with their neighbours of wider types, "
             "for every pair of integer types; every numerator/denominator, split and percentage within the bounds; non-trivial: a distinct (function, "
             "types, value)";
    from<std::int8_t>(s, "int8", thorough);
    from<std::uint8_t>(s, "uint8", thorough);
    from<std::int16_t>(s, "int16", thorough);
    from<std::uint16_t>(s, "uint16", thorough);
    from<std::int32_t>(s, "int32", thorough);
    from<std::uint32_t>(s, "uint32", thorough);
    from<std::int64_t>(s, "int64", thorough);
    from<std::uint64_t>(s, "uint64", thorough);
    from<long long>(s, "long long", thorough);
    from<unsigned long long>(s, "unsigned long long", thorough);
    const long m = thorough ? 1500 : 400;
    s.cases.push_back(vp::data_case("ceilDiv SizeType", [=] { ceil_div<SizeType>(m, m); }));
    s.cases.push_back(vp::data_case("ceilDiv int", [=] { ceil_div<int>(m, m); }));
    s.cases.push_back(vp::data_case("ceilDiv unsigned", [=] { ceil_div<unsigned>(m, m); }));
    s.cases.push_back(vp::data_case("ceilDiv size_t", [=] { ceil_div<std::size_t>(m, m); }));
    s.cases.push_back(vp::data_case("ceilDiv uint8", [=] { ceil_div<std::uint8_t>(255, 255); }));
    s.cases.push_back(vp::data_case("ceilDiv int16", [=] { ceil_div<std::int16_t>(m, m); }));
    s.cases.push_back(vp::data_case("interleaveSplits", [=] { splits(thorough ? 30 : 18); }));
    s.cases.push_back(vp::data_case("percent_to_index", percent));
    s.cases.push_back(vp::data_case("strings and signs", misc));
    return s;
  });
}
