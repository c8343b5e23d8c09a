// P10: the process grid is a bijection, its communicators are consistent, round robin cycles in the same order everywhere.
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>

#include <dlaf/common/round_robin.h>
#include <dlaf/common/with_result_of.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/communicator_pipeline.h>
#include <dlaf/sender/transform_mpi.h>

#include <array>
#include <atomic>
#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using common::Ordering;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;

struct Shape {
  int nranks, rows, cols;
  Ordering ord;
  bool reversed;  // the ranks of the given communicator are in reverse order of the world
  std::size_t np;
  std::string str() const {
    return std::to_string(rows) + "x" + std::to_string(cols) + " of " + std::to_string(nranks) + (ord == Ordering::RowMajor ? " row-major" : " col-major") + (reversed ? " reversed" : "") + ", " + std::to_string(np) + " pipelines";
  }
  int world(int comm_rank) const {
    return reversed ? nranks - 1 - comm_rank : comm_rank;
  }
  int comm_rank(int i, int j) const {
    return ord == Ordering::RowMajor ? i * cols + j : i + j * rows;
  }
  int world(int i, int j) const {
    return world(comm_rank(i, j));
  }
};

static MPI_Comm base_comm(const Shape& s, int r) {
  MPI_Comm c;
  MPI_Comm_split(MPI_COMM_WORLD, 0, s.reversed ? -r : r, &c);
  return c;
}

static void check_grid(CommunicatorGrid& g, const Shape& s, int me) {
  int mi = -1, mj = -1;
  std::set<int> inside;
  for (int i = 0; i < s.rows; ++i)
    for (int j = 0; j < s.cols; ++j) {
      inside.insert(s.world(i, j));
      if (s.world(i, j) == me) {
        mi = i;
        mj = j;
      }
    }
  if (!inside.count(me)) {
    VP_CHECK(g.size() == comm::Size2D(0, 0), "rank %d outside of the grid has a size", me);
    VP_CHECK(MPI_Comm(g.fullCommunicator()) == MPI_COMM_NULL && MPI_Comm(g.rowCommunicator()) == MPI_COMM_NULL && MPI_Comm(g.colCommunicator()) == MPI_COMM_NULL, "rank %d outside of the grid has communicators", me);
    VP_CHECK(g.fullCommunicator().size() == 0 && g.rowCommunicator().size() == 0 && g.colCommunicator().size() == 0, "size of null communicators");
    VP_CHECK(g.num_pipelines() == 0, "pipelines outside of the grid");
    return;
  }
  VP_CHECK(g.size() == comm::Size2D(s.rows, s.cols), "size of the grid");
  VP_CHECK(g.rank() == comm::Index2D(mi, mj), "index of rank %d is (%d,%d)", me, g.rank().row(), g.rank().col());
  VP_CHECK(g.num_pipelines() == s.np, "number of pipelines");
  const auto full = vp::mpi_comm_world_ranks(g.fullCommunicator());
  const auto row = vp::mpi_comm_world_ranks(g.rowCommunicator());
  const auto col = vp::mpi_comm_world_ranks(g.colCommunicator());
  VP_CHECK(MPI_Comm(g.subCommunicator(Coord::Row)) == MPI_Comm(g.rowCommunicator()) && MPI_Comm(g.subCommunicator(Coord::Col)) == MPI_Comm(g.colCommunicator()), "subCommunicator");
  VP_CHECK(full.size() == inside.size() && int(row.size()) == s.cols && int(col.size()) == s.rows, "sizes of the communicators");
  for (int i = 0; i < s.rows; ++i)
    for (int j = 0; j < s.cols; ++j) {
      const int r = g.rankFullCommunicator({i, j});
      VP_CHECK(r >= 0 && r < int(full.size()) && full[std::size_t(r)] == s.world(i, j), "rank of (%d,%d) in the full communicator", i, j);
      VP_CHECK(common::computeCoords(comm::internal::FULL_COMMUNICATOR_ORDER, r, g.size()) == comm::Index2D(i, j), "index of rank %d of the full communicator", r);
    }
  for (int j = 0; j < s.cols; ++j)
    VP_CHECK(row[std::size_t(j)] == s.world(mi, j), "rank %d of the row communicator", j);
  for (int i = 0; i < s.rows; ++i)
    VP_CHECK(col[std::size_t(i)] == s.world(i, mj), "rank %d of the column communicator", i);
  VP_CHECK(g.rowCommunicator().rank() == mj && g.colCommunicator().rank() == mi && g.fullCommunicator().rank() == g.rankFullCommunicator(g.rank()), "own ranks");
  VP_CHECK(g.rowCommunicator().size() == s.cols && g.colCommunicator().size() == s.rows && g.fullCommunicator().size() == s.rows * s.cols, "sizes");
}

template <class P>
static void check_pipeline(P& p, const Shape& s, CommunicatorGrid& g, Communicator& c) {
  VP_CHECK(p.valid() && p.rank() == c.rank() && p.size() == c.size() && p.rank_2d() == g.rank() && p.size_2d() == g.size(), "pipeline reports rank %d size %d", p.rank(), p.size());
  for (int i = 0; i < s.rows; ++i)
    for (int j = 0; j < s.cols; ++j)
      VP_CHECK(p.rank_full_communicator({i, j}) == g.rankFullCommunicator({i, j}), "rank in the full communicator");
}

static void grids(const Shape& s, int how) {
  vp::ranks(s.nranks, 2, [&](int me) {
    MPI_Comm b = base_comm(s, me);
    {
      Communicator c(b);
      std::optional<CommunicatorGrid> g;
      if (how == 0)
        g.emplace(c, s.rows, s.cols, s.ord, s.np);
      else
        g.emplace(c, std::array<comm::IndexT_MPI, 2>{s.rows, s.cols}, s.ord, s.np);
      check_grid(*g, s, me);
      CommunicatorGrid h(std::move(*g));
      check_grid(h, s, me);
      *g = std::move(h);
      check_grid(*g, s, me);
      if (g->num_pipelines() > 0) {
        auto f = g->full_communicator_pipeline();
        auto r = g->row_communicator_pipeline();
        auto k = g->col_communicator_pipeline();
        check_pipeline(f, s, *g, g->fullCommunicator());
        check_pipeline(r, s, *g, g->rowCommunicator());
        check_pipeline(k, s, *g, g->colCommunicator());
        auto r2 = g->communicator_pipeline<Coord::Row>();
        auto k2 = g->communicator_pipeline<Coord::Col>();
        check_pipeline(r2, s, *g, g->rowCommunicator());
        check_pipeline(k2, s, *g, g->colCommunicator());
        static_assert(decltype(r2)::communicator_type == comm::CommunicatorType::Row && decltype(k2)::communicator_type == comm::CommunicatorType::Col && decltype(f)::communicator_type == comm::CommunicatorType::Full);
        auto f2 = f.sub_pipeline();
        check_pipeline(f2, s, *g, g->fullCommunicator());
        auto f3 = std::move(f2);
        check_pipeline(f3, s, *g, g->fullCommunicator());
        VP_CHECK(!f2.valid(), "moved-from pipeline is valid");
        f3.reset();
        VP_CHECK(!f3.valid(), "reset pipeline is valid");
      }
    }
    pika::wait();
    MPI_Comm_free(&b);
  });
  ++vp::n_nontrivial;
}

// The requests of one rank, one after the other: which communicator do they get?
static void round_robin_requests(const Shape& s, int len) {
  std::vector<int> seq;
  for (int i = 0; i < len; ++i)
    seq.push_back(vp::pick(3));
  vp::ranks(s.nranks, 2, [&](int me) {
    MPI_Comm b = base_comm(s, me);
    {
      CommunicatorGrid g(Communicator(b), s.rows, s.cols, s.ord, s.np);
      if (g.num_pipelines() > 0) {
        std::vector<MPI_Comm> got[3];
        Communicator* ref[3] = {std::addressof(g.fullCommunicator()), std::addressof(g.rowCommunicator()), std::addressof(g.colCommunicator())};
        for (int t : seq) {
          auto use = [&](auto p) {
            auto w = tt::sync_wait(p.exclusive());
            const MPI_Comm c = w.get();
            VP_CHECK(c != MPI_Comm(*ref[t]), "the communicator of a pipeline must be a clone");
            VP_CHECK(vp::mpi_comm_world_ranks(c) == vp::mpi_comm_world_ranks(*ref[t]), "pipeline with other ranks");
            auto& l = got[t];
            for (std::size_t k = 1; k <= l.size(); ++k)
              VP_CHECK((l[l.size() - k] == c) == (k % s.np == 0), "request %zu of kind %d gets the wrong communicator", l.size(), t);
            l.push_back(c);
            int x = 1, n = 0;
            MPI_Allreduce(&x, &n, 1, MPI_INT, MPI_SUM, c);
            VP_CHECK(n == ref[t]->size(), "allreduce on the communicator of a pipeline");
          };
          if (t == 0)
            use(g.full_communicator_pipeline());
          else if (t == 1)
            use(g.row_communicator_pipeline());
          else
            use(g.col_communicator_pipeline());
        }
        for (int t = 0; t < 3; ++t)
          for (int u = 0; u < 3; ++u)
            for (auto a : got[t])
              for (auto c : got[u])
                VP_CHECK(t == u || a != c, "two kinds of pipelines share a communicator");
      }
    }
    pika::wait();
    MPI_Comm_free(&b);
  });
  ++vp::n_nontrivial;
}

// Asynchronous use: all ranks enqueue the same operations, the operations of a communicator happen in this order
static void async_requests(const Shape& s, const std::vector<int>& seq, bool barrier) {
  std::vector<std::array<std::atomic<int>, 3>> posted(std::size_t(s.nranks));
  std::array<int, 3> all{};
  for (int k : seq)
    ++all[std::size_t(k)];
  vp::ranks(s.nranks, 2, [&](int me) {
    MPI_Comm b = base_comm(s, me);
    std::vector<double> buf(seq.size());
    auto& mine = posted[std::size_t(me)];
    {
      CommunicatorGrid g(Communicator(b), s.rows, s.cols, s.ord, s.np);
      if (g.num_pipelines() > 0) {
        for (std::size_t k = 0; k < seq.size(); ++k) {
          buf[k] = double(k + 1);
          double* p = &buf[k];
          auto op = [p, &mine = mine[std::size_t(seq[k])]](const Communicator& c, MPI_Request* req) {
            MPI_Iallreduce(MPI_IN_PLACE, p, 1, MPI_DOUBLE, MPI_SUM, c, req);
            ++mine;
          };
          using comm::internal::transformMPI;
          if (seq[k] == 0)
            ex::start_detached(g.full_communicator_pipeline().exclusive() | transformMPI(op));
          else if (seq[k] == 1)
            ex::start_detached(g.row_communicator_pipeline().exclusive() | transformMPI(op));
          else
            ex::start_detached(g.col_communicator_pipeline().exclusive() | transformMPI(op));
        }
        if (barrier) {
          g.wait_all_communicators();
          for (int i = 0; i < s.rows; ++i)
            for (int j = 0; j < s.cols; ++j)
              for (std::size_t k = 0; k < 3; ++k)  // on the communicators this rank belongs to
                if (k == 0 || (k == 1 ? i == g.rank().row() : j == g.rank().col()))
                  VP_CHECK(posted[std::size_t(s.world(i, j))][k].load() == all[k], "communication of rank %d on communicator %d outstanding after wait_all_communicators", s.world(i, j), int(k));
        }
      }
      pika::wait();
      if (g.num_pipelines() > 0)
        for (std::size_t k = 0; k < seq.size(); ++k) {
          const int n = seq[k] == 0 ? s.rows * s.cols : seq[k] == 1 ? s.cols : s.rows;
          VP_CHECK(buf[k] == double(k + 1) * n, "operation %zu combined the data of different operations: %g", k, buf[k]);
        }
    }
    pika::wait();
    MPI_Comm_free(&b);
  });
  ++vp::n_nontrivial;
}

// histories of a RoundRobin
static void round_robin(int depth) {
  using RR = common::RoundRobin<std::unique_ptr<int>>;
  const int n = vp::pick(4) + 1;
  int made = 0;
  using dlaf::internal::WithResultOf;
  RR a(std::size_t(n), WithResultOf([&] { return std::make_unique<int>(made++); }));
  VP_CHECK(made == n && a.size() == std::size_t(n), "resources constructed: %d", made);
  std::vector<int> order;
  auto next = [&] {
    order.push_back(*a.nextResource());
    VP_CHECK(*a.currentResource() == order.back(), "current resource");
    for (std::size_t k = 1; k < order.size(); ++k)
      VP_CHECK((order[order.size() - 1 - k] == order.back()) == (k % std::size_t(n) == 0), "cycle broken");
  };
  for (int d = 0; d < depth; ++d)
    switch (vp::pick(4)) {
      case 0:
        next();
        break;
      case 1:
        if (!order.empty())
          VP_CHECK(*a.currentResource() == order.back(), "current resource");
        break;
      case 2: {
        RR b(std::move(a));
        RR c;
        VP_CHECK(c.size() == 0, "empty");
        c = std::move(b);
        a = std::move(c);
        VP_CHECK(a.size() == std::size_t(n), "size after moves");
        break;
      }
      case 3: {
        RR e;
        VP_CHECK(vp::dies([&] { e.nextResource(); }) && vp::dies([&] { e.currentResource(); }), "empty round robin hands out a resource");
        break;
      }
    }
  ++vp::n_nontrivial;
}

static void refused(int nranks) {
  vp::mpi_set_initialized(true);
  vp::run_ranks({nranks, 1}, [&](int) {
    for (int r = 1; r <= nranks + 1; ++r)
      for (int c = 1; c <= nranks + 1; ++c)
        if (r * c > nranks)
          VP_CHECK(vp::dies([&] { CommunicatorGrid(Communicator(MPI_COMM_WORLD), r, c, Ordering::RowMajor, 1); }), "grid %dx%d on %d ranks", r, c, nranks);
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P10";
    s.rule = "every number of ranks, grid shape, ordering, order of the given communicator and number of pipelines within the bound; every sequence of requests of pipelines; "
             "schedules of asynchronous use within the deviation bound; non-trivial: a distinct grid, sequence or schedule";
    const int maxr = thorough ? 9 : 6;
    for (int n = 1; n <= maxr; ++n)
      for (int r = 1; r <= n; ++r)
        for (int c = 1; r * c <= n; ++c)
          for (Ordering o : {Ordering::RowMajor, Ordering::ColumnMajor})
            for (int rev = 0; rev < 2; ++rev)
              for (std::size_t np : {1, 2, 3}) {
                if (np != 1 && rev)
                  continue;
                const Shape sh{n, r, c, o, bool(rev), np};
                auto k = vp::sched_case("grid " + sh.str(), [=] { grids(sh, int(np % 2)); }, thorough && n <= 4 ? 1 : 0, vp::ALL_POLICIES, true, n <= 4);
                s.cases.push_back(k);
              }
    for (Shape sh : {Shape{1, 1, 1, Ordering::RowMajor, false, 2}, Shape{2, 1, 2, Ordering::RowMajor, false, 2}, Shape{2, 2, 1, Ordering::ColumnMajor, false, 3}, Shape{4, 2, 2, Ordering::RowMajor, false, 1}, Shape{5, 2, 2, Ordering::ColumnMajor, true, 3}})
      s.cases.push_back(vp::history_case("requests " + sh.str(), [=] { round_robin_requests(sh, thorough ? 7 : sh.nranks <= 2 ? 6 : 4); }, 3));
    for (Shape sh : {Shape{1, 1, 1, Ordering::RowMajor, false, 1}, Shape{2, 1, 2, Ordering::RowMajor, false, 1}, Shape{2, 2, 1, Ordering::ColumnMajor, false, 2}, Shape{4, 2, 2, Ordering::RowMajor, false, 1}, Shape{4, 2, 2, Ordering::RowMajor, false, 3}})
      for (int b = 0; b < 2; ++b)
        for (const auto& q : {std::vector<int>{0, 0, 0}, std::vector<int>{1, 1, 2, 2}, std::vector<int>{0, 1, 2, 0, 1, 2}})
          s.cases.push_back(vp::sched_case("asynchronous requests " + sh.str() + " x" + std::to_string(q.size()) + (b ? " barrier" : ""), [=] { async_requests(sh, q, b); }, sh.nranks <= 2 && thorough ? 2 : 1));
    s.cases.push_back(vp::history_case("round robin", [=] { round_robin(thorough ? 9 : 7); }, 3));
    for (int n = 1; n <= 3; ++n)
      s.cases.push_back(vp::data_case("too large grids on " + std::to_string(n), [=] { refused(n); }));
    return s;
  });
}
