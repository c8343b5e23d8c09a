// Programs of tile requests on matrices, sub-pipelines, retiled views and references, compared with their
// sequential execution under every schedule (P12, P13).
#pragma once
#include <array>
#include <memory>
#include <optional>
#include <string>
#include <utility>
#include <vector>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/tile.h>

#include "sched.hpp"

namespace mp {
namespace ex = pika::execution::experimental;
using namespace dlaf;
using dlaf::matrix::Matrix;
using dlaf::matrix::SubTileSpec;
using vp::pick;

// The matrix has two tiles of two rows and one column; an access covers rows of one tile (bit mask).
constexpr int NT = 2, NR = 2;

struct Node;
struct Entry {
  int id;     // access, or -1: sub-pipeline
  int rows;   // mask
  bool rw;
  std::shared_ptr<Node> sub;
};
struct Node {
  std::vector<Entry> entries;
};
struct Seen {
  bool attached = false, rw = false, done = false;
  int rows = 0;
  std::array<double, NR> value{};
};
struct Active {
  int readers[NT][NR] = {}, writers[NT][NR] = {};
};

enum Op {
  READ, WRITE, READ_TWICE, READ_DROP, WRITE_DROP, READ_SUB, WRITE_SUB, WRITE_SPLIT, WRITE_SPLIT_DROP, SHARE, READ_SPLIT,  // accesses
  HOLD_READ, HOLD_WRITE, ATTACH, RELEASE,
  SUB, SUB_CONST, RETILE, RETILE_CONST, REF_READ, REF_WRITE,
  DONE, WAIT, MOVE, DESTROY, NOPS
};
inline const char* opname(int o) {
  static const char* n[] = {"read", "write", "read-twice", "read-drop", "write-drop", "read-subtile", "write-subtile", "write-split", "write-split-drop", "share", "read-split",
                            "hold-read", "hold-write", "attach", "release", "sub", "sub-const", "retile", "retile-const", "ref-read", "ref-write", "done", "wait", "move", "destroy"};
  return n[o];
}
struct Step {
  int op, slot, tile;
};
inline std::string text(const std::vector<Step>& p) {
  std::string s;
  for (auto& x : p)
    s += vp::fmt("%s%s[%d](%d)", s.empty() ? "" : " ", opname(x.op), x.slot, x.tile);
  return s;
}

// What is known of a slot while programs are generated
struct Gen {
  bool live = false, cnst = false, retiled = false;
  int parent = -1;
  bool done[NT * NR] = {};
};

inline std::vector<Step> pick_program(int depth, int nslots, unsigned long ops) {
  std::vector<Step> prog;
  std::vector<Gen> g(static_cast<std::size_t>(nslots));
  g[0].live = true;
  bool held = false;
  auto has = [&](int op) { return (ops >> op) & 1ul; };
  for (int d = 0; d < depth; ++d) {
    std::vector<Step> en;
    int free = -1;
    for (int k = nslots - 1; k >= 0; --k)
      if (!g[std::size_t(k)].live)
        free = k;
    for (int k = 0; k < nslots; ++k) {
      const auto& s = g[std::size_t(k)];
      if (!s.live)
        continue;
      const int nt = s.retiled ? NT * NR : NT;
      bool any_done = false;
      for (int t = 0; t < nt; ++t)
        any_done |= s.done[t];
      for (int t = 0; t < nt; ++t) {
        if (s.done[t])
          continue;
        auto add = [&](int op) {
          if (has(op))
            en.push_back({op, k, t});
        };
        add(READ);
        add(READ_DROP);
        add(READ_TWICE);
        if (!s.retiled) {
          add(READ_SUB);
          add(READ_SPLIT);
        }
        if (!s.cnst) {
          add(WRITE);
          add(WRITE_DROP);
          add(SHARE);
          if (!s.retiled) {
            add(WRITE_SUB);
            add(WRITE_SPLIT);
            add(WRITE_SPLIT_DROP);
          }
        }
        if (!held) {
          add(HOLD_READ);
          if (!s.cnst)
            add(HOLD_WRITE);
        }
        if (!s.retiled) {
          add(REF_READ);
          if (!s.cnst)
            add(REF_WRITE);
        }
        add(DONE);
      }
      if (free >= 0 && !any_done) {
        if (has(SUB) && !s.cnst)
          en.push_back({SUB, k, 0});
        if (has(SUB_CONST))
          en.push_back({SUB_CONST, k, 0});
        if (has(RETILE) && !s.retiled && !s.cnst)
          en.push_back({RETILE, k, 0});
        if (has(RETILE_CONST) && !s.retiled)
          en.push_back({RETILE_CONST, k, 0});
      }
      // everything requested earlier must be able to proceed: only the matrices this one comes from may be alive
      bool others = false;
      for (int o = 0; o < nslots; ++o) {
        int a = k;
        while (a >= 0 && a != o)
          a = g[std::size_t(a)].parent;
        others |= g[std::size_t(o)].live && a != o;
      }
      if (has(WAIT) && !others && !any_done && !held)
        en.push_back({WAIT, k, 0});
      if (has(MOVE))
        en.push_back({MOVE, k, 0});
      if (has(DESTROY) && k > 0)
        en.push_back({DESTROY, k, 0});
    }
    if (held) {
      if (has(ATTACH))
        en.push_back({ATTACH, 0, 0});
      if (has(RELEASE))
        en.push_back({RELEASE, 0, 0});
    }
    if (en.empty())
      break;
    const Step s = en[std::size_t(pick(int(en.size())))];
    auto& k = g[std::size_t(s.slot)];
    switch (s.op) {
      case HOLD_READ:
      case HOLD_WRITE:
        held = true;
        break;
      case ATTACH:
      case RELEASE:
        held = false;
        break;
      case SUB:
      case SUB_CONST:
      case RETILE:
      case RETILE_CONST: {
        auto& n = g[std::size_t(free)];
        n = Gen{};
        n.live = true;
        n.cnst = k.cnst || s.op == SUB_CONST || s.op == RETILE_CONST;
        n.retiled = k.retiled || s.op == RETILE || s.op == RETILE_CONST;
        n.parent = s.slot;
        break;
      }
      case DONE:
        k.done[s.tile] = true;
        break;
      case DESTROY:
        k = Gen{};
        for (auto& o : g)
          if (o.parent == s.slot)
            o.parent = -2;  // grandchildren keep the parent busy, but it is gone
        break;
    }
    prog.push_back(s);
  }
  return prog;
}

struct Slot {
  std::optional<Matrix<double, Device::CPU>> m;
  std::optional<Matrix<const double, Device::CPU>> c;
  bool retiled = false;
  std::array<std::shared_ptr<Node>, NT> node;
  bool live() const {
    return m || c;
  }
  Matrix<const double, Device::CPU>& ro() {
    return m ? static_cast<Matrix<const double, Device::CPU>&>(*m) : *c;
  }
};

struct World {
  std::vector<Seen> seen;
  Active act;

  template <class Tile>
  void body(const Tile& tile, bool rw, int id, int t, int first_row) {
    const int n = int(tile.size().rows());
    VP_CHECK(tile.size().cols() == 1 && n >= 1 && first_row + n <= NR, "access %d: tile of size %d x %d", id, n, int(tile.size().cols()));
    for (int r = first_row; r < first_row + n; ++r) {
      vp::HbIgnore own;
      VP_CHECK(act.writers[t][r] == 0, "access %d granted while a read-write access is active", id);
      if (rw)
        VP_CHECK(act.readers[t][r] == 0, "read-write access %d granted while a read access is active", id);
      ++(rw ? act.writers : act.readers)[t][r];
    }
    auto& s = seen[std::size_t(id)];
    VP_CHECK(!s.done, "access %d granted twice", id);
    for (int r = 0; r < n; ++r)
      s.value[std::size_t(first_row + r)] = tile({r, 0});
    pika::this_thread::yield();
    for (int r = 0; r < n; ++r)
      VP_CHECK(tile({r, 0}) == s.value[std::size_t(first_row + r)], "the tile changed during access %d", id);
    if constexpr (!std::is_const_v<std::remove_reference_t<decltype(tile({0, 0}))>>)
      for (int r = 0; r < n; ++r)
        tile({r, 0}) = 1000 + id;
    s.done = true;
    s.rows = ((1 << n) - 1) << first_row;
    vp::HbIgnore own;
    for (int r = first_row; r < first_row + n; ++r)
      --(rw ? act.writers : act.readers)[t][r];
  }
  template <class S>
  void read(S&& s, int id, int t, int first_row) {
    seen[std::size_t(id)].attached = true;
    ex::start_detached(ex::continues_on(std::forward<S>(s), ex::thread_pool_scheduler{}) | ex::then([this, id, t, first_row](auto w) { body(w.get(), false, id, t, first_row); }));
  }
  template <class S>
  void write(S&& s, int id, int t, int first_row) {
    seen[std::size_t(id)].attached = true;
    seen[std::size_t(id)].rw = true;
    ex::start_detached(ex::continues_on(std::forward<S>(s), ex::thread_pool_scheduler{}) | ex::then([this, id, t, first_row](auto tile) { body(tile, true, id, t, first_row); }));
  }
};

inline void evaluate(const Node& n, std::array<double, NR>& cur, const std::vector<Seen>& seen, const std::string& prog) {
  for (auto& e : n.entries) {
    if (e.sub) {
      evaluate(*e.sub, cur, seen, prog);
      continue;
    }
    auto& s = seen[std::size_t(e.id)];
    if (!s.attached)
      continue;
    VP_CHECK(s.done, "access %d never granted [%s]", e.id, prog.c_str());
    VP_CHECK(s.rows == e.rows, "access %d covers rows %d instead of %d [%s]", e.id, s.rows, e.rows, prog.c_str());
    for (std::size_t r = 0; r < NR; ++r)
      if (e.rows >> r & 1) {
        VP_CHECK(s.value[r] == cur[r], "access %d observed %g instead of %g in row %zu [%s]", e.id, s.value[r], cur[r], r, prog.c_str());
        if (s.rw)
          cur[r] = 1000 + e.id;
      }
  }
}

inline void all_done(const Node& n, const std::vector<Seen>& seen) {
  for (auto& e : n.entries)
    if (e.sub)
      all_done(*e.sub, seen);
    else if (seen[std::size_t(e.id)].attached)
      VP_CHECK(seen[std::size_t(e.id)].done, "access %d outstanding after waiting for the matrix", e.id);
}

inline void programs(int depth, int nslots, unsigned long ops, matrix::AllocationLayout layout = matrix::AllocationLayout::ColMajor) {
  const auto prog = pick_program(depth, nslots, ops);
  const int how = nslots > 1 ? pick(2) : 0;  // order of destruction
  const std::string ptext = text(prog) + (how ? " ascending" : "");
  vp::context(ptext);
  World w;
  w.seen.resize(prog.size() * 2 + 2);
  std::array<std::shared_ptr<Node>, NT> root;
  vp::ranks(1, 2, [&](int) {
    std::vector<Slot> slot(static_cast<std::size_t>(nslots));
    slot[0].m.emplace(matrix::Distribution(GlobalElementSize(NT * NR, 1), TileElementSize(NR, 1), comm::Size2D(1, 1), comm::Index2D(0, 0), comm::Index2D(0, 0)), matrix::AllocationSpec(layout, matrix::Ld::Compact));
    for (int t = 0; t < NT; ++t) {
      root[std::size_t(t)] = slot[0].node[std::size_t(t)] = std::make_shared<Node>();
      ex::start_detached(slot[0].m->readwrite(LocalTileIndex(t, 0)) | ex::then([t](auto tile) {
                           for (int r = 0; r < NR; ++r)
                             tile({r, 0}) = 10 * t + r;
                         }));
    }
    int id = 0;
    // held access
    std::optional<dlaf::matrix::ReadOnlyTileSender<double, Device::CPU>> hr;
    std::optional<dlaf::matrix::ReadWriteTileSender<double, Device::CPU>> hw;
    int hid = -1, ht = 0, hrow = 0;
    auto do_attach = [&] {
      if (hr)
        w.read(std::move(*hr), hid, ht, hrow);
      else
        w.write(std::move(*hw), hid, ht, hrow);
      hr.reset();
      hw.reset();
    };
    for (const Step& st : prog) {
      auto& s = slot[std::size_t(st.slot)];
      const LocalTileIndex ij(st.tile, 0);
      const int t = s.retiled ? st.tile / NR : st.tile;
      const int row = s.retiled ? st.tile % NR : 0;
      const int rows = s.retiled ? 1 << row : (1 << NR) - 1;
      auto note = [&](int i, int mask, bool rw) { s.node[std::size_t(t)]->entries.push_back({i, mask, rw, nullptr}); };
      const SubTileSpec lower{{1, 0}, {1, 1}}, upper{{0, 0}, {1, 1}};
      switch (st.op) {
        case READ:
          note(id, rows, false);
          w.read(s.ro().read(ij), id, t, row);
          break;
        case WRITE:
          note(id, rows, true);
          w.write(s.m->readwrite(ij), id, t, row);
          break;
        case READ_TWICE:  // both must be granted together
          note(id, rows, false);
          w.seen[std::size_t(id)].attached = true;
          ex::start_detached(ex::continues_on(ex::when_all(s.ro().read(ij), s.ro().read(ij)), ex::thread_pool_scheduler{}) |
                             ex::then([&w, id, t, row](auto a, auto) { w.body(a.get(), false, id, t, row); }));
          break;
        case READ_DROP:
          { auto x = s.ro().read(ij); }
          break;
        case WRITE_DROP:
          { auto x = s.m->readwrite(ij); }
          break;
        case READ_SUB:
          note(id, 2, false);
          w.read(splitTile(s.ro().read(ij), lower), id, t, 1);
          break;
        case WRITE_SUB:
          note(id, 2, true);
          w.write(splitTile(s.m->readwrite(ij), lower), id, t, 1);
          break;
        case READ_SPLIT: {
          auto v = splitTile(s.ro().read(ij), std::vector<SubTileSpec>{lower, upper});
          note(id, 2, false);
          note(id + 1, 1, false);
          w.read(std::move(v[0]), id, t, 1);
          w.read(std::move(v[1]), id + 1, t, 0);
          break;
        }
        case WRITE_SPLIT: {
          auto v = splitTileDisjoint(s.m->readwrite(ij), std::vector<SubTileSpec>{lower, upper});
          note(id, 2, true);
          note(id + 1, 1, true);
          w.write(std::move(v[0]), id, t, 1);
          w.write(std::move(v[1]), id + 1, t, 0);
          break;
        }
        case WRITE_SPLIT_DROP: {
          auto v = splitTileDisjoint(s.m->readwrite(ij), std::vector<SubTileSpec>{lower, upper});
          note(id, 2, true);
          w.write(std::move(v[0]), id, t, 1);
          break;
        }
        case SHARE: {
          auto v = dlaf::matrix::shareReadWriteTile(s.m->readwrite(ij));
          note(id, rows, false);
          note(id + 1, rows, false);
          auto v2 = v;
          w.read(std::move(v), id, t, row);
          w.read(std::move(v2), id + 1, t, row);
          break;
        }
        case HOLD_READ:
          note(id, rows, false);
          hr.emplace(s.ro().read(ij));
          hid = id;
          ht = t;
          hrow = row;
          break;
        case HOLD_WRITE:
          note(id, rows, true);
          hw.emplace(s.m->readwrite(ij));
          hid = id;
          ht = t;
          hrow = row;
          break;
        case ATTACH:
          do_attach();
          break;
        case RELEASE:
          hr.reset();
          hw.reset();
          break;
        case SUB:
        case SUB_CONST:
        case RETILE:
        case RETILE_CONST: {
          std::size_t f = 0;
          while (slot[f].live())
            ++f;
          auto& n = slot[f];
          n = Slot{};
          for (std::size_t i = 0; i < NT; ++i) {
            n.node[i] = std::make_shared<Node>();
            s.node[i]->entries.push_back({-1, 3, true, n.node[i]});
          }
          n.retiled = s.retiled || st.op == RETILE || st.op == RETILE_CONST;
          if (st.op == SUB)
            n.m.emplace(s.m->sub_pipeline());
          else if (st.op == SUB_CONST)
            n.c.emplace(s.ro().sub_pipeline_const());
          else if (st.op == RETILE)
            n.m.emplace(s.m->retiled_sub_pipeline({NR, 1}));
          else
            n.c.emplace(s.ro().retiled_sub_pipeline_const({NR, 1}));
          break;
        }
        case REF_READ:
        case REF_WRITE: {
          // rows 1 and 2 of the matrix: the lower half of tile 0 and the upper half of tile 1
          const matrix::internal::SubMatrixSpec spec{{1, 0}, {2, 1}};
          const int first = st.tile == 0 ? 1 : 0;
          note(id, 1 << first, st.op == REF_WRITE);
          if (st.op == REF_READ) {
            matrix::internal::MatrixRef<const double, Device::CPU> ref(s.ro(), spec);
            w.read(ref.read(ij), id, t, first);
          }
          else {
            matrix::internal::MatrixRef<double, Device::CPU> ref(*s.m, spec);
            w.write(ref.readwrite(ij), id, t, first);
          }
          break;
        }
        case DONE:
          s.ro().done(ij);
          break;
        case WAIT:
          s.ro().wait_local_tiles();
          for (auto& n : s.node)
            all_done(*n, w.seen);
          break;
        case MOVE:
          if (s.m) {
            Matrix<double, Device::CPU> x(std::move(*s.m));
            if (id % 4)
              *s.m = std::move(x);
            else
              s.m.emplace(std::move(x));
          }
          else {
            Matrix<const double, Device::CPU> x(std::move(*s.c));
            *s.c = std::move(x);
          }
          break;
        case DESTROY:
          s.m.reset();
          s.c.reset();
          break;
      }
      id += 2;
      pika::this_thread::yield();
    }
    if (hr || hw) {
      if (prog.size() % 2)
        do_attach();
      hr.reset();
      hw.reset();
    }
    for (int i = 0; i < nslots; ++i)
      slot[std::size_t(how ? i : nslots - 1 - i)] = Slot{};
    pika::wait();
  });
  for (int t = 0; t < NT; ++t) {
    std::array<double, NR> cur;
    for (int r = 0; r < NR; ++r)
      cur[std::size_t(r)] = 10 * t + r;
    evaluate(*root[std::size_t(t)], cur, w.seen, ptext);
  }
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive [%s]", vp::pool_live(), ptext.c_str());
  ++vp::n_nontrivial;
}

template <class... O>
constexpr unsigned long ops(O... o) {
  return ((1ul << o) | ...);
}
}
