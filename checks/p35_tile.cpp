// P35: tiles and sub-tiles refer to the right elements; a parent is released when all its sub-tiles are.
#include <array>
#include <memory>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/tile.h>
#include <dlaf/memory/memory_view.h>

#include "sched.hpp"

using namespace dlaf;
using matrix::SubTileSpec;
using matrix::Tile;
using vp::pick;
namespace ex = pika::execution::experimental;
using MemView = memory::MemoryView<double, Device::CPU>;

// ---- geometry

static void check_at(const Tile<const double, Device::CPU>& t, const double* p, SizeType m, SizeType n, SizeType ld) {
  VP_CHECK(t.size() == TileElementSize(m, n), "size %ld x %ld instead of %ld x %ld", t.size().rows(), t.size().cols(), m, n);
  VP_CHECK(t.ld() == ld, "leading dimension %ld instead of %ld", t.ld(), ld);
  VP_CHECK(t.is_contiguous() == (ld == m), "is_contiguous");
  if (m > 0 && n > 0)
    VP_CHECK(t.ptr() == p, "base pointer");
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i) {
      {
        vp::HbIgnore ign;
        ++vp::n_nontrivial;
      }
      VP_CHECK(t.ptr({i, j}) == p + i + j * ld && &t({i, j}) == p + i + j * ld, "element (%ld,%ld)", i, j);
    }
}
static void geometry(SizeType m) {
  for (SizeType n = 0; n <= 4; ++n)
    for (SizeType ld = std::max<SizeType>(1, m); ld <= m + 2; ++ld) {
      const SizeType need = m == 0 || n == 0 ? 0 : m + ld * (n - 1);
      std::vector<double> mem(std::size_t(need) + 4);
      double* const p = mem.data();
      vp::context(vp::fmt("%ld x %ld ld %ld", m, n, ld));
      for (int k = 0; k < 4; ++k) {
        for (std::size_t i = 0; i < mem.size(); ++i)
          mem[i] = double(i);
        Tile<double, Device::CPU> t({m, n}, MemView(p, need + k % 2), ld);
        check_at(t, p, m, n, ld);
        const Tile<const double, Device::CPU>& c = t;
        check_at(c, p, m, n, ld);
        for (SizeType j = 0; j < n; ++j)
          for (SizeType i = 0; i < m; ++i) {
            t({i, j}) = -1. - double(i + 10 * j);
            VP_CHECK(mem[std::size_t(i + j * ld)] == -1. - double(i + 10 * j) && c({i, j}) == mem[std::size_t(i + j * ld)], "write to (%ld,%ld)", i, j);
          }
        long written = 0;
        for (std::size_t i = 0; i < mem.size(); ++i)
          written += mem[i] != double(i);
        VP_CHECK(written == m * n, "writes went elsewhere");
        auto desc = create_data(t);
        VP_CHECK(common::data_count(desc) == std::size_t(m * n), "count of the data of the tile");
        if (m > 0 && n > 0) {
          VP_CHECK(common::data_pointer(desc) == p, "data of the tile");
          if (!common::data_iscontiguous(desc))
            VP_CHECK(SizeType(common::data_blocksize(desc)) == m && SizeType(common::data_nblocks(desc)) == n && SizeType(common::data_stride(desc)) == ld, "blocks of the data of the tile");
          else
            VP_CHECK(n == 1 || ld == m, "data of the tile is not contiguous");
        }
        // moves
        Tile<double, Device::CPU> u(std::move(t));
        check_at(u, p, m, n, ld);
        VP_CHECK(t.size() == TileElementSize(0, 0) && t.ld() == 1, "moved-from tile");
        t = std::move(u);
        check_at(t, p, m, n, ld);
        VP_CHECK(u.size() == TileElementSize(0, 0) && u.ld() == 1, "moved-from tile");
        Tile<const double, Device::CPU> cc(std::move(t));
        check_at(cc, p, m, n, ld);
      }
      Tile<double, Device::CPU> t({m, n}, MemView(p, need), ld);
      const Tile<const double, Device::CPU>& c = t;
      // all sub-tiles, and all sub-tiles of some of them
      for (SizeType oi = 0; oi <= m; ++oi)
        for (SizeType oj = 0; oj <= n; ++oj)
          for (SizeType sm = 0; sm <= m - oi; ++sm)
            for (SizeType sn = 0; sn <= n - oj; ++sn) {
              vp::context(vp::fmt("%ld x %ld ld %ld sub-tile from (%ld,%ld) size %ld x %ld", m, n, ld, oi, oj, sm, sn));
              const double* q = p + oi + oj * ld;
              const auto s = t.subTileReference({{oi, oj}, {sm, sn}});
              check_at(s, q, sm, sn, ld);
              check_at(c.subTileReference({{oi, oj}, {sm, sn}}), q, sm, sn, ld);
              if (sm > 0 && sn > 0)
                for (SizeType a = 0; a < sm; ++a)
                  for (SizeType b = 0; b < sn; ++b)
                    check_at(s.subTileReference({{a, b}, {sm - a, sn - b}}), q + a + b * ld, sm - a, sn - b, ld);
            }
    }
}
static void overlap() {
  // against the sets of elements
  std::vector<SubTileSpec> all;
  for (SizeType a = 0; a < 3; ++a)
    for (SizeType b = 0; b < 3; ++b)
      for (SizeType m = 0; m <= 3 - a; ++m)
        for (SizeType n = 0; n <= 3 - b; ++n)
          all.push_back({{a, b}, {m, n}});
  auto set = [](const SubTileSpec& s) {
    int r = 0;
    for (SizeType j = s.origin.col(); j < s.origin.col() + s.size.cols(); ++j)
      for (SizeType i = s.origin.row(); i < s.origin.row() + s.size.rows(); ++i)
        r |= 1 << (i + 3 * j);
    return r;
  };
  for (auto& x : all)
    for (auto& y : all) {
      ++vp::n_nontrivial;
      VP_CHECK(matrix::internal::subTileSpecsOverlap(x, y) == ((set(x) & set(y)) != 0), "overlap of (%ld,%ld)+(%ld,%ld) and (%ld,%ld)+(%ld,%ld)", x.origin.row(), x.origin.col(), x.size.rows(), x.size.cols(),
               y.origin.row(), y.origin.col(), y.size.rows(), y.size.cols());
    }
}
static void refuse() {
  double mem[64];
  for (SizeType m = -1; m <= 3; ++m)
    for (SizeType n = -1; n <= 3; ++n)
      for (SizeType ld = 0; ld <= 4; ++ld)
        for (SizeType have : {0, 1, 3, 5, 8, 11}) {
          const bool ok = m >= 0 && n >= 0 && ld >= std::max<SizeType>(1, m) && have >= (m == 0 || n == 0 ? 0 : m + ld * (n - 1));
          const bool died = vp::dies([&] { Tile<double, Device::CPU> t(TileElementSize(m, n), MemView(mem, have), ld); });
          VP_CHECK(died == !ok, "%ld x %ld tile, ld %ld, in %ld elements: %s", m, n, ld, have, died ? "refused" : "accepted");
          ++vp::n_nontrivial;
        }
  Tile<double, Device::CPU> t({3, 2}, MemView(mem, 20), 4);
  for (SizeType a = -1; a <= 4; ++a)
    for (SizeType b = -1; b <= 3; ++b)
      for (SizeType m = -1; m <= 4; ++m)
        for (SizeType n = -1; n <= 3; ++n) {
          const bool ok = a >= 0 && b >= 0 && m >= 0 && n >= 0 && a + m <= 3 && b + n <= 2;
          const bool died = vp::dies([&] { auto s = t.subTileReference({{a, b}, {m, n}}); });
          VP_CHECK(died == !ok, "sub-tile from (%ld,%ld) size (%ld,%ld): %s", a, b, m, n, died ? "refused" : "accepted");
          ++vp::n_nontrivial;
        }
}

// ---- lifetimes: accesses to one tile of 2 x 2 elements through trees of sub-tiles

using RO = matrix::ReadOnlyTileSender<double, Device::CPU>;
using RW = matrix::ReadWriteTileSender<double, Device::CPU>;
struct Rect {
  SizeType i, j, m, n;
  SubTileSpec spec(Rect parent) const {
    return {{i - parent.i, j - parent.j}, {m, n}};
  }
  SubTileSpec spec() const {
    return {{i, j}, {m, n}};
  }
};
constexpr Rect ALL{0, 0, 2, 2}, LEFT{0, 0, 2, 1}, RIGHT{0, 1, 2, 1}, TOP{0, 0, 1, 2}, E11{1, 1, 1, 1}, E01{0, 1, 1, 1}, E00{0, 0, 1, 1}, E10{1, 0, 1, 1}, NONE{1, 1, 0, 0};
struct Leaf {
  Rect r;
  std::optional<RO> ro;
  std::optional<RW> rw;
  int access = 0;
  bool done = false, started = false;
  std::array<double, 4> seen{};
};
enum Shape { S_READ, S_READ_SUB, S_READ_SUBSUB, S_READ_MANY, S_WRITE, S_WRITE_SUB, S_WRITE_SUBSUB, S_NO_SUB, S_ONE_SUB, S_TWO, S_FOUR, S_NESTED, S_NESTED2, S_SHARE, S_SHARE_SUB, S_TWO_SHARE, S_GAP, NSHAPES };
static const char* shape_name[] = {"read", "read-sub", "read-sub-sub", "read-many", "write", "write-sub", "write-sub-sub", "write-none", "write-one", "write-two", "write-four", "write-nested", "write-nested-first", "share", "share-sub", "write-share", "write-gap"};
enum How { IN_ORDER, REVERSE, DROP_FIRST, DROP_LAST, HOLD_FIRST, HOLD_ALL, NHOW };
static const char* how_name[] = {"", "reverse", "drop-first", "drop-last", "hold-first", "hold-all"};

using Leaves = std::vector<std::shared_ptr<Leaf>>;

static void make(matrix::Matrix<double, Device::CPU>& m, int shape, Leaves& out) {
  auto ro = [&](Rect r, RO s) {
    auto l = std::make_shared<Leaf>();
    l->r = r;
    l->ro = std::move(s);
    out.push_back(l);
  };
  auto rw = [&](Rect r, RW s) {
    auto l = std::make_shared<Leaf>();
    l->r = r;
    l->rw = std::move(s);
    out.push_back(l);
  };
  auto disjoint = [&](RW s, Rect parent, std::vector<Rect> rs) {
    std::vector<SubTileSpec> specs;
    for (auto& r : rs)
      specs.push_back(r.spec(parent));
    return splitTileDisjoint(std::move(s), specs);
  };
  const LocalTileIndex ij(0, 0);
  switch (shape) {
    case S_READ:
      ro(ALL, m.read(ij));
      break;
    case S_READ_SUB:
      ro(RIGHT, splitTile(m.read(ij), RIGHT.spec()));
      break;
    case S_READ_SUBSUB:
      ro(E11, splitTile(splitTile(m.read(ij), RIGHT.spec()), E11.spec(RIGHT)));
      break;
    case S_READ_MANY: {
      auto v = splitTile(m.read(ij), std::vector<SubTileSpec>{LEFT.spec(), TOP.spec(), E11.spec()});
      ro(LEFT, std::move(v[0])), ro(TOP, std::move(v[1])), ro(E11, std::move(v[2]));
      break;
    }
    case S_WRITE:
      rw(ALL, m.readwrite(ij));
      break;
    case S_WRITE_SUB:
      rw(TOP, splitTile(m.readwrite(ij), TOP.spec()));
      break;
    case S_WRITE_SUBSUB:
      rw(E01, splitTile(splitTile(m.readwrite(ij), TOP.spec()), E01.spec(TOP)));
      break;
    case S_NO_SUB:
      VP_CHECK(disjoint(m.readwrite(ij), ALL, {}).empty(), "no sub-tiles");
      break;
    case S_ONE_SUB: {
      auto v = disjoint(m.readwrite(ij), ALL, {LEFT});
      rw(LEFT, std::move(v[0]));
      break;
    }
    case S_TWO: {
      auto v = disjoint(m.readwrite(ij), ALL, {LEFT, RIGHT});
      rw(LEFT, std::move(v[0])), rw(RIGHT, std::move(v[1]));
      break;
    }
    case S_FOUR: {
      auto v = disjoint(m.readwrite(ij), ALL, {E00, E11, E01, E10});
      rw(E00, std::move(v[0])), rw(E11, std::move(v[1])), rw(E01, std::move(v[2])), rw(E10, std::move(v[3]));
      break;
    }
    case S_NESTED: {
      auto v = disjoint(m.readwrite(ij), ALL, {LEFT, RIGHT});
      auto w = disjoint(std::move(v[1]), RIGHT, {E01, E11});
      rw(LEFT, std::move(v[0])), rw(E01, std::move(w[0])), rw(E11, std::move(w[1]));
      break;
    }
    case S_NESTED2: {
      auto v = disjoint(splitTile(m.readwrite(ij), LEFT.spec()), LEFT, {E00, E10});
      rw(E10, std::move(v[1])), rw(E00, splitTile(std::move(v[0]), E00.spec(E00)));
      break;
    }
    case S_SHARE: {
      auto v = matrix::shareReadWriteTile(m.readwrite(ij));
      auto v2 = v;
      ro(ALL, std::move(v)), ro(ALL, std::move(v2));
      break;
    }
    case S_SHARE_SUB: {
      auto v = matrix::shareReadWriteTile(splitTile(m.readwrite(ij), RIGHT.spec()));
      auto v2 = splitTile(v, E11.spec(RIGHT));
      ro(RIGHT, std::move(v)), ro(E11, std::move(v2));
      break;
    }
    case S_TWO_SHARE: {
      auto v = disjoint(m.readwrite(ij), ALL, {LEFT, RIGHT});
      rw(LEFT, std::move(v[0])), ro(RIGHT, matrix::shareReadWriteTile(std::move(v[1])));
      break;
    }
    case S_GAP: {
      auto v = disjoint(m.readwrite(ij), ALL, {E00, NONE, E11});
      rw(E00, std::move(v[0])), rw(NONE, std::move(v[1])), rw(E11, std::move(v[2]));
      break;
    }
  }
}
static bool exclusive(int shape) {
  return shape >= S_WRITE;
}

static void lifetimes(int depth, unsigned long shapes, int nhow) {
  std::vector<int> shape, how;
  std::vector<int> allowed;
  for (int s = 0; s < NSHAPES; ++s)
    if (shapes >> s & 1)
      allowed.push_back(s);
  std::string text;
  for (int d = 0; d < depth; ++d) {
    shape.push_back(allowed[std::size_t(pick(int(allowed.size())))]);
    how.push_back(pick(nhow));
    text += vp::fmt("%s%s(%s)", d ? " " : "", shape_name[shape.back()], how_name[how.back()]);
  }
  vp::context(text);
  std::vector<Leaves> acc(static_cast<std::size_t>(depth));
  std::vector<bool> requested(static_cast<std::size_t>(depth), false);
  vp::ranks(1, 2, [&](int) {
    matrix::Matrix<double, Device::CPU> m(LocalElementSize(2, 2), TileElementSize(2, 2), matrix::AllocationSpec(matrix::AllocationLayout::ColMajor, 3));
    double* base = nullptr;
    {
      auto t = pika::this_thread::experimental::sync_wait(m.readwrite(LocalTileIndex(0, 0)));
      for (int e = 0; e < 4; ++e)
        t({e % 2, e / 2}) = 10 + e;
      base = t.ptr();
    }
    auto body = [&](const Tile<const double, Device::CPU>& t, double* w, Leaf& l) {
      {
        vp::HbIgnore own;
        for (int a = 0; a < l.access; ++a) {
          bool conflict = false;
          for (int x = a; x <= l.access; ++x)
            conflict |= exclusive(shape[std::size_t(x)]);
          if (conflict)
            for (auto& o : acc[std::size_t(a)])
              VP_CHECK(o->done || !o->started, "access %d was granted before a part of access %d was released", l.access, a);
        }
      }
      VP_CHECK(!l.done, "granted twice");
      check_at(t, base + l.r.i + 3 * l.r.j, l.r.m, l.r.n, 3);
      std::array<double, 4> v{};
      for (SizeType j = 0; j < l.r.n; ++j)
        for (SizeType i = 0; i < l.r.m; ++i)
          v[std::size_t(l.r.i + i + 2 * (l.r.j + j))] = t({i, j});
      pika::this_thread::yield();
      for (SizeType j = 0; j < l.r.n; ++j)
        for (SizeType i = 0; i < l.r.m; ++i) {
          VP_CHECK(v[std::size_t(l.r.i + i + 2 * (l.r.j + j))] == t({i, j}), "the tile changed during the access");
          if (w)
            w[i + 3 * j] = 100 * (l.access + 1) + double(i + l.r.i + 2 * (j + l.r.j));
        }
      vp::HbIgnore own;
      l.seen = v;
      l.done = true;
    };
    auto start = [&](std::shared_ptr<Leaf> l) {
      l->started = true;
      // the tile is released when the task is left, before done is looked at by others
      if (l->ro) {
        ex::start_detached(ex::continues_on(std::move(*l->ro), ex::thread_pool_scheduler{}) | ex::then([&body, l](auto t) { body(t.get(), nullptr, *l); }));
        l->ro.reset();
      }
      else {
        ex::start_detached(ex::continues_on(std::move(*l->rw), ex::thread_pool_scheduler{}) | ex::then([&body, l](auto t) { body(t, l->r.m ? t.ptr() : nullptr, *l); }));
        l->rw.reset();
      }
    };
    Leaves held;
    for (int d = 0; d < depth; ++d) {
      auto& ls = acc[std::size_t(d)];
      make(m, shape[std::size_t(d)], ls);
      for (auto& l : ls)
        l->access = d;
      const int h = how[std::size_t(d)];
      Leaves now = ls, later;
      if (h == REVERSE)
        std::reverse(now.begin(), now.end());
      if (h == HOLD_ALL)
        later.swap(now);
      if (!now.empty() && h == HOLD_FIRST)
        later.push_back(now.front()), now.erase(now.begin());
      for (auto& l : later)
        l->started = true;
      for (std::size_t i = 0; i < now.size(); ++i) {
        if ((h == DROP_FIRST && i == 0) || (h == DROP_LAST && i + 1 == now.size())) {
          now[i]->ro.reset();
          now[i]->rw.reset();
        }
        else
          start(now[i]);
      }
      // what was held from the access before goes now
      for (auto& l : held)
        start(l);
      held = std::move(later);
      pika::this_thread::yield();
    }
    for (auto& l : held)
      start(l);
    held.clear();
    m.wait_local_tiles();
    for (auto& ls : acc)
      for (auto& l : ls)
        VP_CHECK(l->done || !l->started, "an access is outstanding after waiting");
    std::array<double, 4> cur{10, 11, 12, 13};
    for (int d = 0; d < depth; ++d) {
      auto next = cur;
      for (auto& l : acc[std::size_t(d)]) {
        if (!l->started)
          continue;
        // a leaf that had a read-write sender writes
        const bool w = shape[std::size_t(d)] >= S_WRITE && shape[std::size_t(d)] != S_SHARE && shape[std::size_t(d)] != S_SHARE_SUB && !(shape[std::size_t(d)] == S_TWO_SHARE && l->r.j == 1);
        for (SizeType j = l->r.j; j < l->r.j + l->r.n; ++j)
          for (SizeType i = l->r.i; i < l->r.i + l->r.m; ++i) {
            const auto e = std::size_t(i + 2 * j);
            VP_CHECK(l->seen[e] == cur[e], "access %d saw %g instead of %g", d, l->seen[e], cur[e]);
            if (w)
              next[e] = 100 * (d + 1) + double(e);
          }
      }
      cur = next;
    }
    auto t = pika::this_thread::experimental::sync_wait(m.read(LocalTileIndex(0, 0)));
    for (int e = 0; e < 4; ++e)
      VP_CHECK(t.get()({e % 2, e / 2}) == cur[std::size_t(e)], "final element %d", e);
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P35";
    s.rule = "geometry: all sub-tiles of all tiles within the bounds; lifetimes: all sequences of accesses to a tile through trees of sub-tiles, started, reversed, dropped or held, under all schedules within the "
             "bounds; non-trivial: a distinct element, pair or complete sequence";
    for (SizeType m = 0; m <= (thorough ? 6 : 4); ++m)
      s.cases.push_back(vp::data_case(vp::fmt("tiles of %ld rows", m), [=] { geometry(m); }));
    s.cases.push_back(vp::data_case("overlap", overlap));
    s.cases.push_back(vp::data_case("refused", refuse));
    constexpr unsigned long all = (1ul << NSHAPES) - 1;
    auto add = [&](int depth, unsigned long shapes, int nhow, int dev, unsigned policies, bool hb) {
      auto c = vp::sched_case(vp::fmt("%d accesses of %d kinds, %d dispositions", depth, __builtin_popcountl(shapes), nhow), [=] { lifetimes(depth, shapes, nhow); }, dev, policies, false, hb);
      c.split = 100;
      s.cases.push_back(c);
    };
    add(1, all, NHOW, thorough ? 3 : 2, vp::ALL_POLICIES, true);
    add(2, all, NHOW, thorough ? 2 : 1, vp::ALL_POLICIES, false);
    add(2, all, NHOW, 0, vp::ALL_POLICIES, true);
    add(3, all & ~(1ul << S_NO_SUB | 1ul << S_ONE_SUB | 1ul << S_WRITE_SUBSUB | 1ul << S_READ_SUB), thorough ? NHOW : 3, 0, vp::BASIC_POLICIES, false);
    if (thorough)
      add(3, 1ul << S_READ | 1ul << S_READ_MANY | 1ul << S_WRITE | 1ul << S_NESTED | 1ul << S_SHARE_SUB | 1ul << S_TWO_SHARE, NHOW, 1, vp::BASIC_POLICIES, false);
    return s;
  });
}
