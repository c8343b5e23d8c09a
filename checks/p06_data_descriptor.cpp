// P06: data descriptors describe exactly their elements, copy() transfers exactly these.
#include <array>
#include <complex>
#include <cstring>
#include <memory>
#include <set>
#include <vector>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>

#include "pure.hpp"

using namespace dlaf;
using namespace dlaf::common;

// What a user describes: nb blocks of bs elements, the start of a block is stride elements after the start of the previous one
struct Shape {
  SizeType nb, bs, stride;
  SizeType count() const {
    return nb * bs;
  }
  SizeType pos(SizeType i) const {
    return i / bs * stride + i % bs;
  }
  SizeType extent() const {
    return count() == 0 ? 0 : pos(count() - 1) + 1;
  }
  bool gap_free() const {
    return extent() == count();
  }
  std::string str() const {
    return "(" + std::to_string(nb) + "," + std::to_string(bs) + "," + std::to_string(stride) + ")";
  }
};

static std::vector<Shape> shapes(SizeType mn, SizeType mb, SizeType ms) {
  std::vector<Shape> r;
  for (SizeType n = 1; n <= mn; ++n)
    for (SizeType b = 0; b <= mb; ++b) {
      if (n == 1)
        r.push_back({1, b, 0});
      for (SizeType s = b; s <= b + ms; ++s)
        r.push_back({n, b, s});
    }
  return r;
}

template <class T>
static T value(long i) {
  return static_cast<T>(static_cast<long>(i));
}
template <>
std::complex<double> value(long i) {
  return {double(i), -double(i) - 1};
}
template <>
std::complex<float> value(long i) {
  return {float(i), -float(i) - 1};
}

template <class D>
static std::vector<SizeType> elements(const D& d) {
  // elements as the public interface describes them
  std::vector<SizeType> r;
  for (SizeType b = 0; b < data_nblocks(d); ++b)
    for (SizeType i = 0; i < data_blocksize(d); ++i)
      r.push_back(b * data_stride(d) + i);
  return r;
}

template <class T>
static void describe(const std::vector<Shape>& ss) {
  for (const Shape& s : ss) {
    vp::context(s.str());
    std::vector<T> mem(static_cast<std::size_t>(s.extent() + 4));
    DataDescriptor<T> d(mem.data() + 2, s.nb, s.bs, s.stride);
    auto c = create_data(mem.data() + 2, s.nb, s.bs, s.stride);
    auto m = make_data(mem.data() + 2, s.nb, s.bs, s.stride);
    DataDescriptor<const T> k = d;
    DataDescriptor<const T> kd(static_cast<const T*>(mem.data() + 2), s.nb, s.bs, s.stride);
    ++vp::n_nontrivial;
    VP_CHECK(d.data() == mem.data() + 2 && k.data() == d.data() && kd.data() == d.data(), "pointer");
    std::vector<SizeType> exp;
    for (SizeType i = 0; i < s.count(); ++i)
      exp.push_back(s.pos(i));
    VP_CHECK(elements(d) == exp && elements(c) == exp && elements(m) == exp && elements(k) == exp && elements(kd) == exp, "described elements");
    VP_CHECK(d.count() == s.count() && k.count() == s.count() && data_count(d) == s.count() && c.count() == s.count(), "count is %ld", long(d.count()));
    if (s.count() > 0)
      VP_CHECK(d.is_contiguous() == s.gap_free() && k.is_contiguous() == s.gap_free() && data_iscontiguous(d) == s.gap_free(), "is_contiguous is %d", d.is_contiguous());
    if (d.is_contiguous())
      VP_CHECK(d.count() == d.blocksize(), "blocksize of contiguous data is its count");
    VP_CHECK(d == c && !(d != c) && c == m && k == kd, "equal descriptors differ");

    // equality tells whether the same elements get described
    for (const Shape& o : ss) {
      std::vector<T> mem2(static_cast<std::size_t>(o.extent() + 4));
      const auto lim = std::max(mem.size(), mem2.size());
      (void) lim;
      DataDescriptor<T> e(mem.data() + 2, o.nb, o.bs, o.stride);
      if (s.count() > 0 && o.count() > 0)
        VP_CHECK((d == e) == (elements(d) == elements(e)) && (d != e) == !(d == e), "equality with %s", o.str().c_str());
    }

    if (s.count() > 0) {
      auto t = create_temporary_buffer(d);
      static_assert(std::is_same_v<decltype(t), Buffer<T>>);
      VP_CHECK(t.is_contiguous() && t.count() == s.count() && t.nblocks() == 1 && t.blocksize() == s.count() && t.data() != nullptr && bool(t), "temporary buffer of %ld elements", long(t.count()));
      auto tk = create_temporary_buffer(k);
      static_assert(std::is_same_v<decltype(tk), Buffer<T>>);
      VP_CHECK(tk.count() == s.count(), "temporary buffer of constant data");

      Buffer<T> support;
      VP_CHECK(!support && support.count() == 0, "empty buffer");
      auto mc = make_contiguous(d, support);
      VP_CHECK(mc.is_contiguous() && mc.count() == s.count(), "make_contiguous");
      VP_CHECK(bool(support) == !s.gap_free(), "support buffer is %s", support ? "allocated" : "not allocated");
      VP_CHECK(s.gap_free() ? mc.data() == d.data() : (mc.data() == support.data() && support.count() == s.count()), "make_contiguous points to the wrong memory");
      // the buffer really can hold the elements
      for (SizeType i = 0; i < s.count(); ++i)
        mc.data()[i] = value<T>(i);
    }
  }
}

// All pairs of shapes with equal counts
template <class T>
static void copies(const std::vector<Shape>& ss) {
  for (const Shape& a : ss)
    for (const Shape& b : ss) {
      if (a.count() != b.count())
        continue;
      vp::context("copy " + a.str() + " -> " + b.str());
      ++vp::n_nontrivial;
      const std::size_t na = static_cast<std::size_t>(a.extent()), nb = static_cast<std::size_t>(b.extent());
      for (int kind = 0; kind < 2; ++kind) {
        std::vector<T> src(na + 6), dst(nb + 6);
        for (std::size_t i = 0; i < src.size(); ++i)
          src[i] = value<T>(long(i) + 1);
        for (std::size_t i = 0; i < dst.size(); ++i)
          dst[i] = value<T>(-long(i) - 1);
        const auto src0 = src;
        auto exp = dst;
        for (SizeType i = 0; i < a.count(); ++i)
          exp[static_cast<std::size_t>(3 + b.pos(i))] = src[static_cast<std::size_t>(3 + a.pos(i))];
        DataDescriptor<T> d(dst.data() + 3, b.nb, b.bs, b.stride);
        if (kind == 0)
          copy(DataDescriptor<T>(src.data() + 3, a.nb, a.bs, a.stride), d);
        else
          copy(DataDescriptor<const T>(src.data() + 3, a.nb, a.bs, a.stride), d);
        VP_CHECK(dst == exp, "wrong destination");
        VP_CHECK(src == src0, "source changed");
      }
      if (a.count() > 0) {
        // through a temporary buffer and back
        std::vector<T> src(na + 6), dst(nb + 6);
        for (std::size_t i = 0; i < src.size(); ++i)
          src[i] = value<T>(long(i) + 1);
        for (std::size_t i = 0; i < dst.size(); ++i)
          dst[i] = value<T>(-long(i) - 1);
        auto exp = dst;
        for (SizeType i = 0; i < a.count(); ++i)
          exp[static_cast<std::size_t>(3 + b.pos(i))] = src[static_cast<std::size_t>(3 + a.pos(i))];
        DataDescriptor<T> s(src.data() + 3, a.nb, a.bs, a.stride), d(dst.data() + 3, b.nb, b.bs, b.stride);
        auto t = create_temporary_buffer(s);
        copy(s, t);
        for (SizeType i = 0; i < a.count(); ++i)
          VP_CHECK(t.data()[i] == src[static_cast<std::size_t>(3 + a.pos(i))], "temporary buffer holds the wrong elements");
        copy(t, d);
        VP_CHECK(dst == exp, "wrong destination after a copy through a buffer");
      }
    }
}

template <class T, std::size_t N>
static void arrays() {
  T a[N], b[N];
  for (std::size_t i = 0; i < N; ++i) {
    a[i] = value<T>(long(i));
    b[i] = value<T>(-1);
  }
  DataDescriptor<T[N]> d(a);
  VP_CHECK(d.data() == a && d.nblocks() == 1 && d.blocksize() == SizeType(N) && d.count() == SizeType(N) && d.is_contiguous(), "array descriptor");
  DataDescriptor<const T> k = d;
  VP_CHECK(k.data() == a && k.count() == SizeType(N) && k.is_contiguous(), "constant descriptor of an array");
  copy(d, DataDescriptor<T>(b, SizeType(N)));
  for (std::size_t i = 0; i < N; ++i)
    VP_CHECK(b[i] == value<T>(long(i)), "copied array");
  ++vp::n_nontrivial;
  Buffer<T> buf(static_cast<SizeType>(N));
  VP_CHECK(bool(buf) && buf.count() == SizeType(N) && buf.is_contiguous() && buf.data() != nullptr, "buffer");
  auto mem = std::make_unique<T[]>(N);
  T* p = mem.get();
  Buffer<T> own(std::move(mem), SizeType(N));
  VP_CHECK(own.data() == p && own.count() == SizeType(N) && bool(own), "buffer that takes over memory");
  Buffer<T> moved(std::move(own));
  VP_CHECK(moved.data() == p && moved.count() == SizeType(N) && bool(moved) && !own, "moved buffer");
  buf = std::move(moved);
  VP_CHECK(buf.data() == p && bool(buf) && !moved, "move-assigned buffer");
  DataDescriptor<T> one(a, SizeType(N));
  VP_CHECK(one == DataDescriptor<T>(a, 1, SizeType(N), 0) && one.count() == SizeType(N), "contiguous descriptor");
}

static void nulls() {
  DataDescriptor<int> n;
  VP_CHECK(n.data() == nullptr && n.count() == 0, "null descriptor");
  DataDescriptor<const int> k = n;
  VP_CHECK(k.data() == nullptr && k.count() == 0, "constant null descriptor");
  copy(k, n);
  int x = 1;
  VP_CHECK(vp::dies([&] { DataDescriptor<int>(&x, -1, 1, 1); }) && vp::dies([&] { DataDescriptor<int>(&x, 1, -1, 1); }) && vp::dies([&] { DataDescriptor<int>(&x, 2, 1, -1); }), "negative structure accepted");
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P06";
    s.rule = "every shape (blocks, blocksize, stride) within the bounds and every pair of shapes with the same number of elements, for each element type; "
             "non-trivial: a distinct (shape) or (pair of shapes)";
    const auto ss = thorough ? shapes(9, 12, 6) : shapes(6, 8, 4);
    const auto sd = thorough ? shapes(7, 7, 4) : shapes(5, 6, 3);
#define FOR(T)                                                                        \
  s.cases.push_back(vp::data_case("describe " #T, [=] { describe<T>(sd); }));        \
  s.cases.push_back(vp::data_case("copy " #T, [=] { copies<T>(ss); }));              \
  s.cases.push_back(vp::data_case("arrays " #T, [] { arrays<T, 1>(); arrays<T, 2>(); arrays<T, 13>(); }));
    FOR(int)
    FOR(float)
    FOR(double)
    FOR(std::complex<float>)
    FOR(std::complex<double>)
    FOR(char)
    s.cases.push_back(vp::data_case("null descriptors", nulls));
    return s;
  });
}
