// P09: blocking communication wrappers deliver exact data for every layout, root and operation.
#include <complex>
#include <memory>
#include <type_traits>
#include <vector>

#include <mpi.h>

#include <dlaf/common/data.h>
#include <dlaf/common/data_descriptor.h>
#include <dlaf/communication/communicator.h>
#include <dlaf/communication/functions_sync.h>

#include <vp/mpi_rt.hpp>

#include "pure.hpp"

using namespace dlaf;
using namespace dlaf::comm;
using common::DataDescriptor;

struct Shape {
  SizeType nb, bs, stride;
  SizeType count() const {
    return nb * bs;
  }
  SizeType pos(SizeType i) const {
    return i / bs * stride + i % bs;
  }
  SizeType extent() const {
    return pos(count() - 1) + 1;
  }
  std::string str() const {
    return "(" + std::to_string(nb) + "," + std::to_string(bs) + "," + std::to_string(stride) + ")";
  }
};

static std::vector<Shape> shapes(SizeType count, SizeType gaps) {
  std::vector<Shape> r;
  for (SizeType n = 1; n <= count; ++n)
    if (count % n == 0) {
      const SizeType b = count / n;
      if (n == 1)
        r.push_back({1, b, 0});
      else
        for (SizeType g = 0; g <= gaps; ++g)
          r.push_back({n, b, b + g});
    }
  return r;
}

template <class T>
static T val(long i) {
  if constexpr (std::is_same_v<T, bool>)
    return i % 3 != 0;
  else if constexpr (std::is_arithmetic_v<T>)
    return static_cast<T>(i);
  else
    return T(static_cast<typename T::value_type>(i), static_cast<typename T::value_type>(1 - i));
}
// value element i of rank r contributes
template <class T>
static T contribution(int r, SizeType i) {
  return val<T>((r * 3 + i * 2 + 1) % 5 + (r + i) % 2);
}
template <class T>
static T fold(MPI_Op op, int nranks, SizeType i) {
  T x = contribution<T>(0, i);
  for (int r = 1; r < nranks; ++r) {
    const T y = contribution<T>(r, i);
    if (op == MPI_SUM)
      x = static_cast<T>(x + y);
    else if (op == MPI_PROD)
      x = static_cast<T>(x * y);
    else if constexpr (std::is_arithmetic_v<T>)
      x = op == MPI_MAX ? std::max(x, y) : std::min(x, y);
  }
  return x;
}

// memory of one rank with a guard zone on both sides
template <class T>
struct Mem {
  std::vector<T> v;
  Shape s;
  static constexpr SizeType guard = 3;
  Mem(const Shape& s) : v(static_cast<std::size_t>(s.extent() + 2 * guard)), s(s) {
    for (std::size_t i = 0; i < v.size(); ++i)
      v[i] = val<T>(-long(i) - 7);
  }
  T& operator[](SizeType i) {
    return v[static_cast<std::size_t>(guard + s.pos(i))];
  }
  DataDescriptor<T> d() {
    return {v.data() + guard, s.nb, s.bs, s.stride};
  }
  DataDescriptor<const T> cd() {
    return {static_cast<const T*>(v.data() + guard), s.nb, s.bs, s.stride};
  }
};

enum Kind { P2P, BCAST, REDUCE, REDUCE_INPLACE, ALLREDUCE, ALLREDUCE_INPLACE, NKINDS };
static const char* kname[] = {"send/receive", "broadcast", "reduce", "reduce in place", "all-reduce", "all-reduce in place"};

// one operation, called by every rank
template <class T>
static void operation(Kind k, Communicator& c, int root, MPI_Op op, const Shape& a, const Shape& b, bool cst) {
  const int me = c.rank(), n = c.size();
  Mem<T> in(a), out(b);
  for (SizeType i = 0; i < a.count(); ++i)
    in[i] = contribution<T>(me, i);
  Mem<T> in_exp = in, out_exp = out;
  switch (k) {
    case P2P:
      // the root sends to everyone else, which answer
      if (me == root) {
        for (int r = 0; r < n; ++r)
          if (r != root) {
            if (cst)
              sync::send_to(r, c, in.cd());
            else
              sync::send_to(r, c, in.d());
          }
        for (int r = n - 1; r >= 0; --r)
          if (r != root) {
            sync::receive_from(r, c, out.d());
            for (SizeType i = 0; i < b.count(); ++i)
              out_exp[i] = contribution<T>(r, i);
            VP_CHECK(out.v == out_exp.v, "%s: wrong data received by the root from %d", kname[k], r);
          }
      }
      else {
        sync::receive_from(root, c, out.d());
        for (SizeType i = 0; i < b.count(); ++i)
          out_exp[i] = contribution<T>(root, i);
        sync::send_to(root, c, in.d());
      }
      break;
    case BCAST:
      if (me == root) {
        if (cst)
          sync::broadcast::send(c, in.cd());
        else
          sync::broadcast::send(c, in.d());
      }
      else {
        sync::broadcast::receive_from(root, c, out.d());
        for (SizeType i = 0; i < b.count(); ++i)
          out_exp[i] = contribution<T>(root, i);
      }
      break;
    case REDUCE:
      if (cst)
        sync::reduce(root, c, op, in.cd(), out.d());
      else
        sync::reduce(root, c, op, in.d(), out.d());
      if (me == root)
        for (SizeType i = 0; i < b.count(); ++i)
          out_exp[i] = fold<T>(op, n, i);
      break;
    case REDUCE_INPLACE:
      sync::reduceInPlace(root, c, op, in.d());
      if (me == root)
        for (SizeType i = 0; i < a.count(); ++i)
          in_exp[i] = fold<T>(op, n, i);
      break;
    case ALLREDUCE:
      if (cst)
        sync::allReduce(c, op, in.cd(), out.d());
      else
        sync::allReduce(c, op, in.d(), out.d());
      for (SizeType i = 0; i < b.count(); ++i)
        out_exp[i] = fold<T>(op, n, i);
      break;
    case ALLREDUCE_INPLACE:
      sync::allReduceInPlace(c, op, in.d());
      for (SizeType i = 0; i < a.count(); ++i)
        in_exp[i] = fold<T>(op, n, i);
      break;
    case NKINDS:
      break;
  }
  VP_CHECK(in.v == in_exp.v, "%s: wrong data in the input buffer of rank %d", kname[k], me);
  VP_CHECK(out.v == out_exp.v, "%s: wrong data in the output buffer of rank %d", kname[k], me);
}

static void finish() {
  const auto l = vp::mpi_leaks();
  VP_CHECK(l.empty(), "%s", l.c_str());
}

// all layouts, one schedule
template <class T>
static void layouts(Kind k, int nranks, const std::vector<SizeType>& counts, SizeType gaps) {
  std::vector<MPI_Op> ops = {MPI_SUM};
  if (k != P2P && k != BCAST) {
    ops.push_back(MPI_PROD);
    if constexpr (std::is_arithmetic_v<T>) {
      ops.push_back(MPI_MAX);
      ops.push_back(MPI_MIN);
    }
  }
  vp::mpi_set_initialized(true);
  for (SizeType count : counts)
    for (const Shape& a : shapes(count, gaps))
      for (const Shape& b : shapes(count, gaps)) {
        vp::context(a.str() + " -> " + b.str());
        vp::run_ranks({nranks, 1}, [&](int) {
          Communicator world(MPI_COMM_WORLD);
          Communicator w = world.clone();
          for (int root = 0; root < nranks; ++root)
            for (MPI_Op op : ops)
              for (int cst = 0; cst < 2; ++cst)
                operation<T>(k, w, root, op, a, b, cst);
        });
        vp::n_nontrivial += static_cast<unsigned>(nranks) * ops.size();
        finish();
      }
}

// schedules of single operations and of a sequence of them
template <class T>
static void schedules(Kind k, int nranks, int root, Shape a, Shape b, int repeat) {
  vp::mpi_set_initialized(true);
  vp::run_ranks({nranks, 1}, [&](int) {
    Communicator w(MPI_COMM_WORLD);
    for (int i = 0; i < repeat; ++i)
      operation<T>(k, w, (root + i) % nranks, MPI_SUM, a, b, false);
  });
  ++vp::n_nontrivial;
  finish();
}

static void sequence(int nranks, int first) {
  vp::mpi_set_initialized(true);
  vp::run_ranks({nranks, 1}, [&](int) {
    Communicator w(MPI_COMM_WORLD);
    for (int i = 0; i < NKINDS; ++i)
      operation<double>(static_cast<Kind>((first + i) % NKINDS), w, i % nranks, MPI_SUM, {2, 2, 3}, {1, 4, 0}, false);
  });
  ++vp::n_nontrivial;
  finish();
}

// messages between two ranks do not overtake each other
static void order(int n) {
  vp::mpi_set_initialized(true);
  vp::run_ranks({2, 1}, [&](int r) {
    Communicator w(MPI_COMM_WORLD);
    for (int i = 0; i < n; ++i) {
      int x[2] = {r == 0 ? i : -1, r == 0 ? 10 * i : -1};
      DataDescriptor<int> d(x, 2);
      if (r == 0)
        sync::send_to(1, w, d);
      else {
        sync::receive_from(0, w, d);
        VP_CHECK(x[0] == i && x[1] == 10 * i, "message %d arrived as number %d", x[0], i);
      }
    }
  });
  ++vp::n_nontrivial;
  finish();
}

static void refused() {
  vp::mpi_set_initialized(true);
  vp::run_ranks({1, 1}, [&](int) {
    Communicator w(MPI_COMM_WORLD);
    double x[2] = {1, 2}, y[2];
    DataDescriptor<double> d(x, 2), o(y, 2);
    for (int root : {-1, 1, MPI_UNDEFINED}) {
      VP_CHECK(vp::dies([&] { sync::reduce(root, w, MPI_SUM, d, o); }), "reduce to rank %d of 1", root);
      VP_CHECK(vp::dies([&] { sync::reduceInPlace(root, w, MPI_SUM, d); }), "reduce in place to rank %d of 1", root);
    }
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P09";
    s.rule = "every rank count, root, operation, element type and pair of layouts with the same number of elements (default schedule); "
             "and every schedule of the ranks and of message completion within the deviation bound for representative layouts; "
             "non-trivial: a distinct (ranks, root, operation, pair of layouts), or a schedule";
    const int maxr = thorough ? 5 : 4;
    const std::vector<SizeType> counts = thorough ? std::vector<SizeType>{1, 2, 3, 4, 5, 6, 8, 12} : std::vector<SizeType>{1, 2, 3, 4, 6};
    const SizeType gaps = thorough ? 4 : 2;
    for (int n = 1; n <= maxr; ++n)
      for (int k = 0; k < NKINDS; ++k) {
        auto add = [&](const char* t, auto f) {
          auto c = vp::data_case(std::string(kname[k]) + " " + std::to_string(n) + " ranks " + t, f);
          c.policies = {vp::FIFO, vp::HIGHRANK};
          c.mpi_modes = {vp::MPI_EAGER, vp::MPI_RENDEZVOUS};
          s.cases.push_back(c);
        };
        const Kind kk = static_cast<Kind>(k);
        add("double", [=] { layouts<double>(kk, n, counts, gaps); });
        add("int", [=] { layouts<int>(kk, n, counts, gaps); });
        add("complex<float>", [=] { layouts<std::complex<float>>(kk, n, counts, gaps); });
        if (n <= 3) {
          add("float", [=] { layouts<float>(kk, n, counts, gaps); });
          add("complex<double>", [=] { layouts<std::complex<double>>(kk, n, counts, gaps); });
          add("short", [=] { layouts<short>(kk, n, counts, gaps); });
          add("long", [=] { layouts<long>(kk, n, counts, gaps); });
          add("long long", [=] { layouts<long long>(kk, n, counts, gaps); });
          add("unsigned char", [=] { layouts<unsigned char>(kk, n, counts, gaps); });
          add("unsigned short", [=] { layouts<unsigned short>(kk, n, counts, gaps); });
          add("unsigned", [=] { layouts<unsigned>(kk, n, counts, gaps); });
          add("unsigned long", [=] { layouts<unsigned long>(kk, n, counts, gaps); });
          add("unsigned long long", [=] { layouts<unsigned long long>(kk, n, counts, gaps); });
        }
      }
    auto sched = [&](std::string name, int dev, auto f) {
      auto c = vp::data_case("schedules of " + name, f);
      c.policies = {vp::FIFO, vp::LIFO, vp::HIGHRANK, vp::LOWRANK, vp::LATEEVENTS};
      c.mpi_modes = {vp::MPI_EAGER, vp::MPI_RENDEZVOUS};
      c.max_dev = dev;
      s.cases.push_back(c);
    };
    const std::vector<std::pair<Shape, Shape>> pairs = {{{1, 4, 0}, {1, 4, 0}}, {{2, 2, 3}, {1, 4, 0}}, {{1, 4, 0}, {4, 1, 2}}, {{2, 2, 5}, {4, 1, 3}}};
    for (int n = 2; n <= maxr; ++n)
      for (int k = 0; k < NKINDS; ++k)
        for (int root = 0; root < n; ++root)
          for (auto& [a, b] : pairs)
            sched(std::string(kname[k]) + " " + std::to_string(n) + " ranks root " + std::to_string(root) + " " + a.str() + b.str(), n == 2 ? -1 : thorough && n <= 4 ? 3 : 2,
                  [=, a = a, b = b] { schedules<double>(static_cast<Kind>(k), n, root, a, b, n == 2 ? 1 : 2); });
    for (int n = 2; n <= maxr; ++n)
      for (int f = 0; f < NKINDS; ++f)
        sched("sequence " + std::to_string(n) + " ranks from " + kname[f], thorough ? 2 : 1, [=] { sequence(n, f); });
    sched("order of messages", thorough ? 4 : 3, [=] { order(4); });
    s.cases.push_back(vp::data_case("roots out of range", refused));
    return s;
  });
}
