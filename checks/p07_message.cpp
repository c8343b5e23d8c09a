// P07: messages cover exactly the described elements; custom types are committed before use and freed exactly once.
#include <complex>
#include <memory>
#include <optional>
#include <type_traits>
#include <utility>
#include <vector>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/message.h>
#include <dlaf/communication/type_handler.h>

#include <vp/mpi_rt.hpp>

#include "pure.hpp"

using namespace dlaf;
using namespace dlaf::comm;
using common::Buffer;
using common::DataDescriptor;

static std::vector<std::pair<long, long>> merged(std::vector<std::pair<long, long>> b) {
  std::vector<std::pair<long, long>> r;
  for (auto [o, l] : b) {
    if (l == 0)
      continue;
    if (!r.empty() && r.back().first + r.back().second == o)
      r.back().second += l;
    else
      r.push_back({o, l});
  }
  return r;
}

// bytes that get transferred by (count, type), in order
static std::vector<std::pair<long, long>> cover(int count, MPI_Datatype t) {
  const auto m = vp::mpi_type_map(t);
  std::vector<std::pair<long, long>> r;
  for (int c = 0; c < count; ++c)
    for (auto [o, l] : m.blocks)
      r.push_back({c * m.extent + o, l});
  return merged(r);
}

static std::vector<std::pair<long, long>> described(SizeType nb, SizeType bs, SizeType stride, long sz) {
  std::vector<std::pair<long, long>> r;
  for (SizeType i = 0; i < nb; ++i)
    r.push_back({i * stride * sz, bs * sz});
  return merged(r);
}

template <class M>
static void check_message(const M& m, const void* p, SizeType nb, SizeType bs, SizeType stride, std::size_t sz, const char* what) {
  VP_CHECK(static_cast<const void*>(m.data()) == p, "%s: wrong pointer", what);
  VP_CHECK(m.mpi_type() != MPI_DATATYPE_NULL, "%s: null type", what);
  const auto tm = vp::mpi_type_map(m.mpi_type());
  VP_CHECK(tm.committed, "%s: type not committed", what);
  VP_CHECK(cover(m.count(), m.mpi_type()) == described(nb, bs, stride, long(sz)), "%s: wrong elements: count %d, type of size %ld and extent %ld", what, m.count(), tm.size, tm.extent);
}

template <class T>
static void shapes(SizeType mn, SizeType mb, SizeType ms) {
  std::vector<T> mem(static_cast<std::size_t>(mn * (mb + ms) + 8));
  for (SizeType n = 1; n <= mn; ++n)
    for (SizeType b = 0; b <= mb; ++b)
      for (SizeType s = n == 1 ? 0 : b; s <= b + ms; ++s) {
        ++vp::n_nontrivial;
        vp::context("(" + std::to_string(n) + "," + std::to_string(b) + "," + std::to_string(s) + ")");
        {
          DataDescriptor<T> d(mem.data() + 3, n, b, s);
          DataDescriptor<const T> k = d;
          auto m1 = make_message(d);
          auto m2 = make_message(k);
          Message<DataDescriptor<T>> m3(d);
          auto m4 = make_message(common::make_data(mem.data() + 3, n, b, s));
          check_message(m1, mem.data() + 3, n, b, s, sizeof(T), "message");
          check_message(m2, mem.data() + 3, n, b, s, sizeof(T), "message of constant data");
          check_message(m3, mem.data() + 3, n, b, s, sizeof(T), "message");
          check_message(m4, mem.data() + 3, n, b, s, sizeof(T), "message of created data");
          static_assert(std::is_same_v<decltype(m2.data()), const T*> && std::is_same_v<decltype(m1.data()), T*>);
          auto m5 = std::move(m1);
          check_message(m5, mem.data() + 3, n, b, s, sizeof(T), "moved message");
        }
        VP_CHECK(vp::mpi_live_types() == 0, "%ld types left", vp::mpi_live_types());
      }
  // arrays and the type handler itself
  T arr[7];
  auto ma = make_message(DataDescriptor<T[7]>(arr));
  check_message(ma, arr, 1, 7, 0, sizeof(T), "array");
  for (SizeType n = 1; n <= mn; ++n)
    for (SizeType b = 1; b <= mb; ++b)
      for (SizeType s = b; s <= b + ms; ++s) {
        ++vp::n_nontrivial;
        {
          comm::internal::type_handler<T> h(n, b, s);
          VP_CHECK(bool(h) && vp::mpi_type_map(h).committed && cover(1, h) == described(n, b, s, long(sizeof(T))), "type handler (%ld,%ld,%ld)", long(n), long(b), long(s));
          VP_CHECK(vp::mpi_live_types() == 1, "one type");
        }
        VP_CHECK(vp::mpi_live_types() == 0, "type not freed");
      }
  // what does not fit in an int is refused
  const SizeType big = SizeType(1) << 31;
  VP_CHECK(vp::dies([&] { (void) make_message(DataDescriptor<T>(mem.data(), big)).count(); }), "too long message accepted");
  (void) make_message(DataDescriptor<T>(mem.data(), big - 1)).count();
  VP_CHECK(make_message(DataDescriptor<T>(mem.data(), big - 1)).count() == big - 1, "longest message");
}

template <class T>
static void element_type() {
  const MPI_Datatype t = mpi_datatype<T>::type;
  const auto m = vp::mpi_type_map(t);
  ++vp::n_nontrivial;
  VP_CHECK(m.builtin && m.size == long(sizeof(T)) && m.extent == long(sizeof(T)), "type of size %ld for an element of size %zu", m.size, sizeof(T));
  VP_CHECK(mpi_datatype<const T>::type == t, "constant element");
}

// A slot holds nothing, an object without a custom type or one with a custom type of shape 1 or 2
template <class H>
struct Ops;

template <>
struct Ops<comm::internal::type_handler<double>> {
  using H = comm::internal::type_handler<double>;
  static void make(std::optional<H>& s, int shape) {
    if (shape == 0)
      s.emplace();
    else
      s.emplace(2 + shape, 3, 4 + shape);
  }
  static bool custom(const H& h) {
    return bool(h);
  }
  static void check(const H& h, int shape) {
    if (shape == 0)
      VP_CHECK(!bool(h) && MPI_Datatype(h) == MPI_DATATYPE_NULL, "handler must be empty");
    else
      VP_CHECK(bool(h) && vp::mpi_type_map(h).committed && cover(1, h) == described(2 + shape, 3, 4 + shape, 8), "handler holds the wrong type");
  }
  static constexpr bool moved_from_empty = true;
};

static double g_mem[3][64];
template <>
struct Ops<Message<DataDescriptor<double>>> {
  using H = Message<DataDescriptor<double>>;
  static void make(std::optional<H>& s, int shape) {
    if (shape == 0)
      s.emplace(DataDescriptor<double>(g_mem[0], 5));
    else
      s.emplace(DataDescriptor<double>(g_mem[shape], 2 + shape, 3, 4 + shape));
  }
  static bool custom(const H& h) {
    return h.mpi_type() != mpi_datatype<double>::type;
  }
  static void check(const H& h, int shape) {
    if (shape == 0)
      check_message(h, g_mem[0], 1, 5, 0, 8, "contiguous message");
    else
      check_message(h, g_mem[shape], 2 + shape, 3, 4 + shape, 8, "strided message");
  }
  static constexpr bool moved_from_empty = false;
};

template <class H>
static void history(int nslots, int depth) {
  {
    std::vector<std::optional<H>> s(static_cast<std::size_t>(nslots));
    std::vector<int> model(static_cast<std::size_t>(nslots), -1);  // -1 nothing, -2 moved from, else the shape
    for (int d = 0; d < depth; ++d) {
      const int i = vp::pick(nslots);
      auto& a = s[std::size_t(i)];
      auto& ma = model[std::size_t(i)];
      const int op = vp::pick(6 + 2 * nslots);
      if (op < 3) {
        Ops<H>::make(a, op);
        ma = op;
      }
      else if (op == 3) {
        a.reset();
        ma = -1;
      }
      else if (op >= 6 && op < 6 + nslots) {  // move construct i from another slot
        const int j = op - 6;
        if (j == i || model[std::size_t(j)] == -1)
          return;
        a.emplace(std::move(*s[std::size_t(j)]));
        ma = std::exchange(model[std::size_t(j)], -2);
      }
      else if (op >= 6 + nslots) {  // move assign i from another slot, or itself
        const int j = op - 6 - nslots;
        if (ma == -1 || model[std::size_t(j)] == -1)
          return;
        *a = std::move(*s[std::size_t(j)]);
        const int v = std::exchange(model[std::size_t(j)], -2);
        if (i != j)
          ma = v;
      }
      else {  // swap with another slot
        const int j = (i + op - 3) % nslots;
        if (j <= i || ma == -1 || model[std::size_t(j)] == -1)
          return;
        std::swap(*a, *s[std::size_t(j)]);
        std::swap(ma, model[std::size_t(j)]);
      }
      long live = 0;
      for (int k = 0; k < nslots; ++k) {
        const auto& x = s[std::size_t(k)];
        const int m = model[std::size_t(k)];
        VP_CHECK(x.has_value() == (m != -1), "harness");
        if (m >= 0) {
          Ops<H>::check(*x, m);
          live += m > 0;
        }
        if (m == -2) {
          // empty, or (self move) still the owner of its type
          if constexpr (Ops<H>::moved_from_empty)
            live += Ops<H>::custom(*x);
        }
      }
      if constexpr (Ops<H>::moved_from_empty)
        VP_CHECK(vp::mpi_live_types() == live, "%ld types are alive, %ld are owned", vp::mpi_live_types(), live);
      else
        VP_CHECK(vp::mpi_live_types() >= live, "%ld types are alive, %ld are owned", vp::mpi_live_types(), live);
    }
    ++vp::n_nontrivial;
  }
  VP_CHECK(vp::mpi_live_types() == 0, "%ld types never freed", vp::mpi_live_types());
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P07";
    s.rule = "every shape (blocks, blocksize, stride) within the bounds for each element type; all sequences of operations on 3 handlers / messages; "
             "non-trivial: a distinct (type, shape) or a history all of whose operations are enabled";
    const int n = thorough ? 10 : 6, b = thorough ? 10 : 6, st = thorough ? 8 : 5;
    vp::mpi_set_initialized(true);
#define FOR(T)                                                                     \
  s.cases.push_back(vp::data_case("shapes " #T, [=] { shapes<T>(n, b, st); }));   \
  s.cases.push_back(vp::data_case("element " #T, [] { element_type<T>(); }));
    FOR(char)
    FOR(short)
    FOR(int)
    FOR(long)
    FOR(long long)
    FOR(unsigned char)
    FOR(unsigned short)
    FOR(unsigned)
    FOR(unsigned long)
    FOR(unsigned long long)
    FOR(float)
    FOR(double)
    FOR(std::complex<float>)
    FOR(std::complex<double>)
    s.cases.push_back(vp::data_case("element bool", [] { element_type<bool>(); }));
    s.cases.push_back(vp::history_case("histories of 2 type handlers", [=] { history<comm::internal::type_handler<double>>(2, thorough ? 5 : 4); }, 20));
    s.cases.push_back(vp::history_case("histories of 3 type handlers", [=] { history<comm::internal::type_handler<double>>(3, thorough ? 4 : 3); }, 20));
    s.cases.push_back(vp::history_case("histories of 2 messages", [=] { history<Message<DataDescriptor<double>>>(2, thorough ? 5 : 4); }, 20));
    s.cases.push_back(vp::history_case("histories of 3 messages", [=] { history<Message<DataDescriptor<double>>>(3, thorough ? 4 : 3); }, 20));
    return s;
  });
}
