// P16: communication kernels on tiles deliver the prescribed values under every MPI behaviour and schedule.
#include <complex>
#include <memory>
#include <optional>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/communication/communicator.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/communication/kernels.h>
#include <dlaf/communication/kernels/p2p_allsum.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/tile.h>

#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
namespace ex = pika::execution::experimental;
using Pipe = comm::CommunicatorPipeline<comm::CommunicatorType::Full>;
using vp::pick;

enum Kind { COMPUTE, BCAST, REDUCE, ALLREDUCE, ALLREDUCE_IN_PLACE, P2P, P2P_EXCLUSIVE, P2P_COMM, EXCHANGE, RECV_BCAST, SUM_P2P, NKINDS };
struct Step {
  int kind, tile, root, peer;
  MPI_Op op;
  bool chained;  // the returned tile gets modified by a continuation
};
static const char* names[] = {"compute", "bcast", "reduce", "all-reduce", "all-reduce in place", "send/recv", "send/recv exclusive", "send/recv with a communicator", "exchange exclusive", "recv before bcast, send after it", "sum p2p"};
static std::string text(const std::vector<Step>& p) {
  std::string s;
  for (auto& x : p)
    s += vp::fmt("%s%s(tile %d root %d peer %d op %s%s)", s.empty() ? "" : " ", names[x.kind], x.tile, x.root, x.peer, x.op == MPI_SUM ? "sum" : x.op == MPI_MAX ? "max" : "min", x.chained ? " chained" : "");
  return s;
}

// Each rank has tiles: 0 contiguous, 1 and 2 within columns of a larger allocation
constexpr int NTILES = 3, M = 2, N = 2;
template <class T>
using State = std::vector<std::array<std::array<T, M * N>, NTILES>>;

template <class T>
static T initial(int rank, int tile, int k) {
  return T(1 + 3 * rank + 20 * tile + (k * (rank + 1)) % 7);
}
template <class T>
static bool less(T a, T b) {
  if constexpr (isComplex_v<T>)
    return std::real(a) < std::real(b);
  else
    return a < b;
}
template <class T>
static T combine(MPI_Op op, T a, T b) {
  return op == MPI_SUM ? a + b : (op == MPI_MAX) == less(a, b) ? b : a;
}
static bool in(const std::vector<Kind>& ks, Kind k) {
  for (auto x : ks)
    if (x == k)
      return true;
  return false;
}

template <class T>
static std::vector<Step> alphabet(int n, const std::vector<Kind>& ks, bool full) {
  std::vector<Step> v;
  std::vector<MPI_Op> ops = {MPI_SUM};
  if constexpr (!isComplex_v<T>)
    if (full)
      ops = {MPI_SUM, MPI_MAX, MPI_MIN};
  for (int t = 0; t < (full ? 2 : 2); ++t) {
    for (int ch = 0; ch < (full ? 2 : 1); ++ch) {
      const bool chained = full ? ch : t == 0;
      if (in(ks, COMPUTE) && !ch)
        v.push_back({COMPUTE, t, 0, 0, MPI_SUM, false});
      for (int r = 0; r < n; ++r) {
        if (in(ks, BCAST))
          v.push_back({BCAST, t, r, 0, MPI_SUM, chained});
        for (auto op : ops)
          if (in(ks, REDUCE))
            v.push_back({REDUCE, t, r, 0, op, chained});
        for (int q = 0; q < n; ++q)
          if (q != r)
            for (Kind k : {P2P, P2P_EXCLUSIVE, P2P_COMM, EXCHANGE, RECV_BCAST})
              if (in(ks, k) && (k != EXCHANGE || r < q))
                v.push_back({k, t, r, q, MPI_SUM, chained});
        for (int q = r + 1; q < n; ++q)
          if constexpr (!std::is_integral_v<T>)
            if (in(ks, SUM_P2P))
              v.push_back({SUM_P2P, t, r, q, MPI_SUM, chained});
      }
      for (auto op : ops) {
        if (in(ks, ALLREDUCE))
          v.push_back({ALLREDUCE, t, 0, 0, op, chained});
        if (in(ks, ALLREDUCE_IN_PLACE))
          v.push_back({ALLREDUCE_IN_PLACE, t, 0, 0, op, chained});
      }
    }
  }
  return v;
}

template <class T>
static T touched(T x) {
  return T(2) * x + T(1);
}
template <class T>
static void touch(const matrix::Tile<T, Device::CPU>& t) {
  for (SizeType j = 0; j < N; ++j)
    for (SizeType i = 0; i < M; ++i)
      t({i, j}) = touched(t({i, j}));
}

template <class T>
static State<T> reference(int n, const std::vector<Step>& prog) {
  State<T> s(static_cast<std::size_t>(n));
  for (int r = 0; r < n; ++r)
    for (int t = 0; t < NTILES; ++t)
      for (int k = 0; k < M * N; ++k)
        s[std::size_t(r)][std::size_t(t)][std::size_t(k)] = initial<T>(r, t, k);
  for (auto& st : prog) {
    const auto t = std::size_t(st.tile), u = t + 1;
    for (std::size_t k = 0; k < M * N; ++k) {
      T acc = s[0][t][k];
      for (std::size_t r = 1; r < s.size(); ++r)
        acc = combine(st.op, acc, s[r][t][k]);
      auto fin = [&](T x) { return st.chained ? touched(x) : x; };
      switch (st.kind) {
        case COMPUTE:
          for (auto& r : s)
            r[t][k] = touched(r[t][k]);
          break;
        case BCAST:
          for (std::size_t r = 0; r < s.size(); ++r)
            if (int(r) != st.root)
              s[r][t][k] = fin(s[std::size_t(st.root)][t][k]);
          break;
        case REDUCE:
          s[std::size_t(st.root)][t][k] = fin(acc);
          break;
        case ALLREDUCE:
          for (auto& r : s)
            r[u][k] = fin(acc);
          break;
        case ALLREDUCE_IN_PLACE:
          for (auto& r : s)
            r[t][k] = fin(acc);
          break;
        case P2P:
        case P2P_EXCLUSIVE:
        case P2P_COMM:
          s[std::size_t(st.peer)][t][k] = fin(s[std::size_t(st.root)][t][k]);
          break;
        case EXCHANGE:
          s[std::size_t(st.peer)][u][k] = fin(s[std::size_t(st.root)][t][k]);
          s[std::size_t(st.root)][u][k] = fin(s[std::size_t(st.peer)][t][k]);
          break;
        case RECV_BCAST:
          s[std::size_t(st.peer)][u][k] = fin(s[std::size_t(st.root)][t][k]);
          for (std::size_t r = 0; r < s.size(); ++r)
            s[r][t][k] = s[std::size_t(st.root)][t][k];
          break;
        case SUM_P2P: {
          const T sum = s[std::size_t(st.root)][t][k] + s[std::size_t(st.peer)][t][k];
          s[std::size_t(st.root)][u][k] = fin(sum);
          s[std::size_t(st.peer)][u][k] = fin(sum);
          break;
        }
      }
    }
  }
  return s;
}

template <class T>
static void programs(int n, int depth, const std::vector<Kind>& ks, bool full) {
  const auto al = alphabet<T>(n, ks, full);
  std::vector<Step> prog;
  for (int d = 0; d < depth; ++d)
    prog.push_back(al[std::size_t(pick(int(al.size())))]);
  const bool late = pick(2);  // the matrix and the pipeline get destroyed only when all is done
  const std::string ptext = text(prog);
  vp::context(ptext);
  const auto want = reference<T>(n, prog);
  auto got = want;
  for (auto& r : got)
    for (auto& t : r)
      t.fill(T(-1));
  std::vector<int> sent(static_cast<std::size_t>(n), 0);

  vp::pool_reset();
  vp::ranks(n, 2, [&](int me) {
    using matrix::Matrix;
    Pipe pipe{Communicator(MPI_COMM_WORLD)};
    VP_CHECK(pipe.rank() == me && pipe.size() == n, "rank and size of the pipeline");
    // tile 0 is contiguous, 1 and 2 are not; row 4 of mat_b is a guard
    Matrix<T, Device::CPU> mat_a(LocalElementSize(M, N), TileElementSize(M, N));
    Matrix<T, Device::CPU> mat_b(LocalElementSize(2 * M + 1, N), TileElementSize(M, N), matrix::AllocationLayout::ColMajor);
    auto rw = [&](int t) { return t == 0 ? mat_a.readwrite(LocalTileIndex(0, 0)) : mat_b.readwrite(LocalTileIndex(t - 1, 0)); };
    auto ro = [&](int t) { return t == 0 ? mat_a.read(LocalTileIndex(0, 0)) : mat_b.read(LocalTileIndex(t - 1, 0)); };
    for (int t = 0; t < NTILES; ++t)
      ex::start_detached(rw(t) | ex::then([me, t](matrix::Tile<T, Device::CPU> x) {
                           VP_CHECK(x.is_contiguous() == (t == 0), "layout of the test matrix");
                           for (int k = 0; k < M * N; ++k)
                             x({k % M, k / M}) = initial<T>(me, t, k);
                         }));
    ex::start_detached(mat_b.readwrite(LocalTileIndex(2, 0)) | ex::then([](matrix::Tile<T, Device::CPU> x) { x({0, 0}) = x({0, 1}) = T(99); }));

    // a continuation of an operation that returns a tile / that does not
    auto finish = [&](const Step& st, auto s) {
      if (st.chained)
        ex::start_detached(std::move(s) | ex::then([](matrix::Tile<T, Device::CPU> t) { touch(t); }));
      else
        ex::start_detached(std::move(s));
    };
    auto finish_send = [&](auto s) {
      ex::start_detached(std::move(s) | ex::then([&sent, me] {
                           vp::HbIgnore ign;
                           ++sent[std::size_t(me)];
                         }));
    };
    for (std::size_t i = 0; i < prog.size(); ++i) {
      const Step& st = prog[i];
      const int tag = int(i);
      switch (st.kind) {
        case COMPUTE:
          ex::start_detached(rw(st.tile) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [](const matrix::Tile<T, Device::CPU>& t) { touch(t); }));
          break;
        case BCAST:
          if constexpr (!std::is_same_v<T, int>) {
            if (me == st.root)
              finish_send(comm::schedule_bcast_send(ex::make_unique_any_sender(pipe.exclusive()), ro(st.tile)));
            else
              finish(st, comm::schedule_bcast_recv(ex::make_unique_any_sender(pipe.exclusive()), st.root, rw(st.tile)));
          }
          break;
        case REDUCE:
          if constexpr (std::is_same_v<T, SizeType>)
            break;
          else if (me == st.root)
            finish(st, comm::schedule_reduce_recv_in_place(ex::make_unique_any_sender(pipe.exclusive()), st.op, rw(st.tile)));
          else
            finish_send(comm::schedule_reduce_send(ex::make_unique_any_sender(pipe.exclusive()), st.root, st.op, ro(st.tile)));
          break;
        case ALLREDUCE:
          if constexpr (!std::is_same_v<T, SizeType>)
            finish(st, comm::scheduleAllReduce(ex::make_unique_any_sender(pipe.exclusive()), st.op, ro(st.tile), rw(st.tile + 1)));
          break;
        case ALLREDUCE_IN_PLACE:
          if constexpr (!std::is_same_v<T, SizeType>)
            finish(st, comm::schedule_all_reduce_in_place(ex::make_unique_any_sender(pipe.exclusive()), st.op, rw(st.tile)));
          break;
        case P2P:
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.root)
              finish_send(comm::schedule_send(pipe.shared(), st.peer, tag, ro(st.tile)));
            else if (me == st.peer)
              finish(st, comm::schedule_recv(pipe.shared(), st.root, tag, rw(st.tile)));
          }
          break;
        case P2P_EXCLUSIVE:
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.root)
              finish_send(comm::schedule_send(pipe.exclusive(), st.peer, 7, ro(st.tile)));
            else if (me == st.peer)
              finish(st, comm::schedule_recv(pipe.exclusive(), st.root, 7, rw(st.tile)));
          }
          break;
        case P2P_COMM:  // with a communicator that is not managed by a pipeline
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.root)
              finish_send(comm::schedule_send(ex::make_unique_any_sender(ex::just(Communicator(MPI_COMM_WORLD))), st.peer, 100 + tag, ro(st.tile)));
            else if (me == st.peer)
              finish(st, comm::schedule_recv(ex::make_any_sender(ex::just(Communicator(MPI_COMM_WORLD))), st.root, 100 + tag, rw(st.tile)));
          }
          break;
        case EXCHANGE:  // the communicator is available again as soon as an operation has begun
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.root || me == st.peer) {
              const int mate = me == st.root ? st.peer : st.root;
              finish(st, comm::schedule_recv(pipe.exclusive(), mate, 8, rw(st.tile + 1)));
              finish_send(comm::schedule_send(pipe.exclusive(), mate, 8, ro(st.tile)));
            }
          }
          break;
        case RECV_BCAST:
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.peer)
              finish(st, comm::schedule_recv(pipe.exclusive(), st.root, 9, rw(st.tile + 1)));
            if (me == st.root)
              finish_send(comm::schedule_bcast_send(ex::make_unique_any_sender(pipe.exclusive()), ro(st.tile)));
            else
              ex::start_detached(comm::schedule_bcast_recv(ex::make_unique_any_sender(pipe.exclusive()), st.root, rw(st.tile)));
            if (me == st.root)
              finish_send(comm::schedule_send(pipe.exclusive(), st.peer, 9, ro(st.tile)));
          }
          break;
        case SUM_P2P:
          if constexpr (!std::is_integral_v<T>) {
            if (me == st.root || me == st.peer) {
              const int mate = me == st.root ? st.peer : st.root;
              // the result comes without a tile
              ex::start_detached(comm::schedule_sum_p2p<Backend::MC>(pipe.shared(), mate, tag, ro(st.tile), rw(st.tile + 1)));
              if (st.chained)
                ex::start_detached(rw(st.tile + 1) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [](const matrix::Tile<T, Device::CPU>& t) { touch(t); }));
            }
          }
          break;
      }
    }
    for (int t = 0; t < NTILES; ++t)
      ex::start_detached(ro(t) | ex::then([&got, me, t](const auto& x) {
                           for (int k = 0; k < M * N; ++k) {
                             const T v = x.get()({k % M, k / M});
                             vp::HbIgnore ign;
                             got[std::size_t(me)][std::size_t(t)][std::size_t(k)] = v;
                           }
                         }));
    ex::start_detached(mat_b.read(LocalTileIndex(2, 0)) | ex::then([](const auto& x) { VP_CHECK(x.get()({0, 0}) == T(99) && x.get()({0, 1}) == T(99), "memory next to the tiles was modified"); }));
    if (late)
      pika::wait();
  });
  for (int r = 0; r < n; ++r)
    for (int t = 0; t < NTILES; ++t)
      for (int k = 0; k < M * N; ++k)
        VP_CHECK(got[std::size_t(r)][std::size_t(t)][std::size_t(k)] == want[std::size_t(r)][std::size_t(t)][std::size_t(k)], "rank %d tile %d element %d is %g instead of %g [%s]", r, t, k,
                 double(std::real(got[std::size_t(r)][std::size_t(t)][std::size_t(k)])), double(std::real(want[std::size_t(r)][std::size_t(t)][std::size_t(k)])), ptext.c_str());
  for (auto& st : prog) {
    if (st.kind == BCAST)
      --sent[std::size_t(st.root)];
    if (st.kind == P2P || st.kind == P2P_EXCLUSIVE || st.kind == P2P_COMM || st.kind == EXCHANGE)
      --sent[std::size_t(st.root)];
    if (st.kind == EXCHANGE)
      --sent[std::size_t(st.peer)];
    if (st.kind == RECV_BCAST)
      sent[std::size_t(st.root)] -= 2;
    if (st.kind == REDUCE)
      for (int r = 0; r < n; ++r)
        sent[std::size_t(r)] -= r != st.root;
  }
  for (int r = 0; r < n; ++r)
    VP_CHECK(sent[std::size_t(r)] == 0, "rank %d signalled %+d completions too many [%s]", r, sent[std::size_t(r)], ptext.c_str());
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive [%s]", vp::pool_live(), ptext.c_str());
  ++vp::n_nontrivial;
}

template <class T>
static void add(vp::Suite& s, const char* tn, int n, int depth, const std::vector<Kind>& ks, bool full, int dev, unsigned policies, const char* what) {
  auto c = vp::sched_case(vp::fmt("%s, %d ranks, %d %s", tn, n, depth, what), [=] { programs<T>(n, depth, ks, full); }, dev, policies, true, true);
  c.split = 24;
  s.cases.push_back(c);
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P16";
    s.rule = "all programs of communication operations and computations on three tiles (contiguous and not) up to the depth, all roots, peers, reductions and ways to continue; "
             "both MPI behaviours; schedules within the deviation bound; non-trivial: a complete program";
    const std::vector<Kind> all = {COMPUTE, BCAST, REDUCE, ALLREDUCE, ALLREDUCE_IN_PLACE, P2P, P2P_EXCLUSIVE, P2P_COMM, EXCHANGE, RECV_BCAST, SUM_P2P}, coll = {COMPUTE, BCAST, REDUCE, ALLREDUCE, ALLREDUCE_IN_PLACE}, p2p = {COMPUTE, P2P, P2P_EXCLUSIVE, EXCHANGE, RECV_BCAST, SUM_P2P};
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    for (int n = 1; n <= 4; ++n)
      add<double>(s, "double", n, 1, all, true, n <= 2 ? (thorough ? 3 : 2) : n == 3 && thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<float>(s, "float", 2, 1, all, true, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<std::complex<float>>(s, "complex<float>", 2, 1, all, true, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<std::complex<double>>(s, "complex<double>", 2, 1, all, true, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<int>(s, "int", 2, 1, {COMPUTE, REDUCE, ALLREDUCE, ALLREDUCE_IN_PLACE}, true, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<SizeType>(s, "SizeType", 2, 1, {COMPUTE, BCAST}, true, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<double>(s, "double", 2, 2, all, false, thorough ? 2 : 1, ALL_POLICIES, "operations");
    add<double>(s, "double", 3, 2, coll, false, thorough ? 1 : 0, ALL_POLICIES, "collectives");
    add<double>(s, "double", 3, 2, p2p, false, thorough ? 1 : 0, ALL_POLICIES, "messages");
    if (thorough) {
      add<double>(s, "double", 2, 3, all, false, 0, ALL_POLICIES, "operations");
      add<double>(s, "double", 2, 3, p2p, false, 1, BASIC_POLICIES, "messages");
      add<double>(s, "double", 4, 2, coll, false, 0, BASIC_POLICIES, "collectives");
      add<double>(s, "double", 3, 3, p2p, false, 0, BASIC_POLICIES, "messages");
    }
    return s;
  });
}
