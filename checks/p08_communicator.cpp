// P08: communicators release what they own exactly once, never what they borrow.
#include <array>
#include <memory>
#include <optional>
#include <utility>
#include <vector>

#include <mpi.h>

#include <dlaf/communication/communicator.h>

#include <vp/mpi_rt.hpp>

#include "pure.hpp"

using namespace dlaf;
using comm::Communicator;

// What a slot must refer to
struct Ref {
  int kind = -1;                    // -1 no object, 0 null, 1 borrowed, 2 world, 3 owned, 4 moved from
  std::shared_ptr<MPI_Comm> owned;  // handle of an owned communicator
  MPI_Comm handle = MPI_COMM_NULL;
};

static void check_slot(const std::optional<Communicator>& s, const Ref& r, int size, int rank) {
  VP_CHECK(s.has_value() == (r.kind != -1), "harness");
  if (r.kind == -1 || r.kind == 4)
    return;
  const Communicator& c = *s;
  if (r.kind == 0) {
    VP_CHECK(MPI_Comm(c) == MPI_COMM_NULL && *(&c) == MPI_COMM_NULL && c.size() == 0 && c.rank() == MPI_UNDEFINED, "null communicator: size %d rank %d", c.size(), c.rank());
    return;
  }
  VP_CHECK(MPI_Comm(c) == r.handle && *(&c) == r.handle && *(&*const_cast<std::optional<Communicator>&>(s)) == r.handle, "wrong handle");
  VP_CHECK(vp::mpi_comm_valid(c), "communicator has been released too early");
  VP_CHECK(c.size() == size && c.rank() == rank, "size %d rank %d, must be %d %d", c.size(), c.rank(), size, rank);
}

struct Op {
  int i, op, j;
};

// runs a history on the slots; user is a communicator owned by the harness
static void play(const std::vector<Op>& h, int nslots, MPI_Comm user, MPI_Comm world, bool count) {
  int size, rank, wsize, wrank;
  MPI_Comm_size(user, &size);
  MPI_Comm_rank(user, &rank);
  MPI_Comm_size(world, &wsize);
  MPI_Comm_rank(world, &wrank);
  const long base = vp::mpi_live_comms();
  {
    std::vector<std::optional<Communicator>> s(static_cast<std::size_t>(nslots));
    std::vector<Ref> m(static_cast<std::size_t>(nslots));
    for (const Op& o : h) {
      auto& a = s[std::size_t(o.i)];
      auto& b = s[std::size_t(o.j)];
      Ref& ma = m[std::size_t(o.i)];
      Ref& mb = m[std::size_t(o.j)];
      auto drop = [&] { ma = Ref{}; };
      switch (o.op) {
        case 0:
          a.emplace();
          drop();
          ma.kind = 0;
          break;
        case 1:
          a.emplace(user);
          drop();
          ma.kind = 1;
          ma.handle = user;
          break;
        case 2:
          a.emplace(world);
          drop();
          ma.kind = 2;
          ma.handle = world;
          break;
        case 3: {
          MPI_Comm c;
          MPI_Comm_dup(user, &c);
          a.emplace(comm::make_communicator_managed(c));
          drop();
          ma.kind = 3;
          ma.owned = std::make_shared<MPI_Comm>(c);
          ma.handle = c;
          break;
        }
        case 4:
          a.reset();
          drop();
          break;
        case 5:  // copy construct
          if (o.i == o.j || mb.kind < 0 || mb.kind == 4)
            vp::violation("harness: operation not enabled");
          a.emplace(*b);
          ma = mb;
          break;
        case 6:  // move construct
          if (o.i == o.j || mb.kind < 0 || mb.kind == 4)
            vp::violation("harness: operation not enabled");
          a.emplace(std::move(*b));
          ma = std::exchange(mb, Ref{4, nullptr, MPI_COMM_NULL});
          break;
        case 7:  // copy assign (also to itself)
          if (ma.kind < 0 || mb.kind < 0 || mb.kind == 4)
            vp::violation("harness: operation not enabled");
          *a = *b;
          if (o.i != o.j)
            ma = Ref(mb);
          break;
        case 8:  // move assign
          if (ma.kind < 0 || mb.kind < 0 || mb.kind == 4 || o.i == o.j)
            vp::violation("harness: operation not enabled");
          *a = std::move(*b);
          ma = std::exchange(mb, Ref{4, nullptr, MPI_COMM_NULL});
          break;
        case 9: {  // clone
          if (mb.kind <= 0 || mb.kind == 4 || mb.kind == 2)
            vp::violation("harness: operation not enabled");
          Communicator c = b->clone();
          VP_CHECK(MPI_Comm(c) != mb.handle && vp::mpi_comm_valid(c), "a clone must be a new communicator");
          int r;
          MPI_Comm_compare(c, mb.handle, &r);
          VP_CHECK(r == MPI_CONGRUENT, "a clone has other ranks");
          a.emplace(std::move(c));
          drop();
          ma.kind = 3;
          ma.handle = *a;
          ma.owned = std::make_shared<MPI_Comm>(ma.handle);
          break;
        }
        case 10: {  // clone of the world
          if (mb.kind != 2)
            vp::violation("harness: operation not enabled");
          {
            Communicator c = b->clone();
            VP_CHECK(MPI_Comm(c) != mb.handle && vp::mpi_comm_valid(c) && c.size() == wsize && c.rank() == wrank, "clone of the world");
          }
          break;
        }
        case 11:
          if (o.i == o.j || ma.kind < 0 || mb.kind < 0)
            vp::violation("harness: operation not enabled");
          std::swap(*a, *b);
          std::swap(ma, mb);
          break;
      }
      for (std::size_t k = 0; k < s.size(); ++k)
        check_slot(s[k], m[k], m[k].kind == 2 ? wsize : size, m[k].kind == 2 ? wrank : rank);
      VP_CHECK(vp::mpi_comm_valid(user), "a borrowed communicator has been released");
      if (count) {
        std::vector<MPI_Comm*> owned;
        for (auto& r : m)
          if (r.owned && std::find(owned.begin(), owned.end(), r.owned.get()) == owned.end())
            owned.push_back(r.owned.get());
        VP_CHECK(vp::mpi_live_comms() - base == long(owned.size()), "%ld communicators are alive, %zu are owned", vp::mpi_live_comms() - base, owned.size());
      }
    }
    ++vp::n_nontrivial;
  }
  if (count)
    VP_CHECK(vp::mpi_live_comms() == base, "%ld communicators have never been released", vp::mpi_live_comms() - base);
}

// all enabled histories; a slot is free (-1), moved from (4) or of the kind of Ref
static std::vector<Op> pick_history(int nslots, int depth) {
  std::vector<Op> h;
  std::vector<int> kind(static_cast<std::size_t>(nslots), -1);
  for (int d = 0; d < depth; ++d) {
    std::vector<Op> en;
    for (int i = 0; i < nslots; ++i) {
      const int a = kind[std::size_t(i)];
      for (int op = 0; op < 5; ++op)
        if (op != 4 || a != -1)
          en.push_back({i, op, i});
      for (int op = 5; op < 12; ++op)
        for (int j = 0; j < nslots; ++j) {
          const int b = kind[std::size_t(j)];
          const bool live = b >= 0 && b != 4;
          bool ok = live;
          if (op == 5 || op == 6)
            ok = live && i != j;
          if (op == 7)
            ok = live && a >= 0;
          if (op == 8)
            ok = live && a >= 0 && i != j;
          if (op == 9)
            ok = b == 1 || b == 3;
          if (op == 10)
            ok = b == 2 && i == 0;
          if (op == 11)
            ok = a >= 0 && b >= 0 && i < j;
          if (ok)
            en.push_back({i, op, j});
        }
    }
    const Op o = en[std::size_t(vp::pick(int(en.size())))];
    int &a = kind[std::size_t(o.i)], &b = kind[std::size_t(o.j)];
    switch (o.op) {
      case 0: case 1: case 2: case 3: a = o.op; break;
      case 4: a = -1; break;
      case 5: case 7: a = b; break;
      case 6: case 8: a = b; b = 4; break;
      case 9: a = 3; break;
      case 11: std::swap(a, b); break;
    }
    h.push_back(o);
  }
  return h;
}

static void single(int nslots, int depth) {
  const auto h = pick_history(nslots, depth);
  vp::mpi_set_initialized(true);
  vp::run_ranks({1, 1}, [&](int) {
    MPI_Comm user;
    MPI_Comm_dup(MPI_COMM_WORLD, &user);
    play(h, nslots, user, MPI_COMM_WORLD, true);
    MPI_Comm_free(&user);
  });
  const auto l = vp::mpi_leaks();
  VP_CHECK(l.empty(), "%s", l.c_str());
}

// ranks of different communicators with different sizes
static void many(int nranks, int shape, int depth) {
  const auto h = pick_history(2, depth);
  vp::mpi_set_initialized(true);
  vp::run_ranks({nranks, 1}, [&](int r) {
    MPI_Comm user;
    // alternating ranks, the world in reverse, the world, one rank each, and the world without its last rank
    const int colour[5] = {r % 2, 0, 0, r, r == nranks - 1};
    const int key[5] = {-r, -r, r, 0, (r + 1) % nranks};
    MPI_Comm_split(MPI_COMM_WORLD, colour[shape], key[shape], &user);
    play(h, 2, user, MPI_COMM_WORLD, false);
    MPI_Comm_free(&user);
  });
  const auto l = vp::mpi_leaks();
  VP_CHECK(l.empty(), "%s", l.c_str());
}

static void refused() {
  vp::mpi_set_initialized(true);
  vp::run_ranks({1, 1}, [&](int) {
    VP_CHECK(vp::dies([] { Communicator c(MPI_COMM_NULL); }), "null communicator wrapped");
    VP_CHECK(vp::dies([] { comm::make_communicator_managed(MPI_COMM_NULL); }), "null communicator managed");
    VP_CHECK(vp::dies([] { comm::make_communicator_managed(MPI_COMM_WORLD); }), "world communicator managed");
    ++vp::n_nontrivial;
  });
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P08";
    s.rule = "all sequences of construction (null, borrowed, world, managed), copy, move, swap, clone and destruction on 2 or 3 communicator objects up to the depth; "
             "non-trivial: a history all of whose operations are enabled";
    s.cases.push_back(vp::history_case("2 objects", [=] { single(2, thorough ? 6 : 4); }, 36));
    s.cases.push_back(vp::history_case("3 objects", [=] { single(3, thorough ? 5 : 4); }, 36));
    for (int shape = 0; shape < 5; ++shape) {
      s.cases.push_back(vp::history_case(vp::fmt("2 objects, 3 ranks, communicator shape %d", shape), [=] { many(3, shape, shape == 0 && thorough ? 5 : thorough ? 4 : 3); }, 36));
      s.cases.push_back(vp::history_case(vp::fmt("2 objects, 4 ranks, communicator shape %d", shape), [=] { many(4, shape, thorough ? 4 : 3); }, 36));
    }
    s.cases.push_back(vp::data_case("null communicators", refused));
    return s;
  });
}
