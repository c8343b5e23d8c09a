// P14: panels expose the right tiles under any history; broadcasts give every rank the content of the root.
#include <map>
#include <memory>
#include <optional>
#include <vector>

#include <mpi.h>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>
#include <pika/thread.hpp>

#include <dlaf/communication/broadcast_panel.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/panel.h>

#include "sched.hpp"

using namespace dlaf;
using comm::Communicator;
using comm::CommunicatorGrid;
using matrix::Distribution;
using matrix::Matrix;
using matrix::Panel;
using matrix::StoreTransposed;
namespace ex = pika::execution::experimental;
namespace tt = pika::this_thread::experimental;
using vp::pick;
using T = double;

// ---- one panel of one rank: histories of ranges, widths, accesses and resets

template <Coord axis, StoreTransposed S>
static void set_dim(Panel<axis, T, Device::CPU, S>& p, SizeType w) {
  if constexpr (axis == Coord::Col)
    p.setWidth(w);
  else
    p.setHeight(w);
}
template <Coord axis, StoreTransposed S>
static SizeType get_dim(const Panel<axis, T, Device::CPU, S>& p) {
  if constexpr (axis == Coord::Col)
    return p.getWidth();
  else
    return p.getHeight();
}

struct Geo {
  SizeType n, tile, other, other_tile;  // along the panel / across
  int p, src, me;
  SizeType start;
};

template <Coord axis, StoreTransposed S>
static void histories(const std::vector<Geo>& geos, int depth) {
  constexpr Coord coord = orthogonal(axis);
  const Geo g = geos[std::size_t(pick(int(geos.size())))];
  const SizeType nt = (g.n + g.tile - 1) / g.tile;
  std::string trace = vp::fmt("%s panel%s of %ld elements in tiles of %ld (x%ld) on %d ranks from %d, rank %d, from tile %ld:", axis == Coord::Col ? "column" : "row", S == StoreTransposed::Yes ? " stored transposed" : "", g.n, g.tile,
                              g.other_tile, g.p, g.src, g.me, g.start);
  vp::pool_reset();
  vp::ranks(1, 2, [&](int) {
    const Distribution dist(GlobalElementSize(axis, g.other, g.n), TileElementSize(axis, g.other_tile, g.tile), comm::Size2D(coord, g.p, 1), comm::Index2D(coord, g.me, 0), comm::Index2D(coord, g.src, 0));
    Panel<axis, T, Device::CPU, S> panel(dist, GlobalTileIndex(coord, g.start, 0));

    if (g.start == 0 && depth == 2) {  // the default is the whole panel
      const Panel<axis, T, Device::CPU, S> a(dist);
      VP_CHECK(a.rangeStart() == 0 && a.rangeEnd() == nt && a.rangeStartLocal() == 0, "default range");
      VP_CHECK(a.rangeEndLocal() == panel.rangeEndLocal() && a.offsetElement() == 0, "default range");
      VP_CHECK(get_dim(a) == g.other_tile, "default width");
    }

    // model
    SizeType start = g.start, end = nt, start_elem = g.start * g.tile, dim = g.other_tile;
    bool used = false, dim_set = false;
    std::map<SizeType, bool> external;  // global tile -> linked
    std::map<SizeType, double> content;  // of the workspace
    double next = 1;

    auto mine = [&](SizeType k) { return (k + g.src) % g.p == g.me; };
    auto local = [&](SizeType k) { return k / g.p; };
    auto next_local = [&](SizeType k) {
      while (!mine(k))
        ++k;
      return local(k);
    };
    auto extent = [&](SizeType k) { return std::min(g.tile, g.n - k * g.tile) - (k == start ? start_elem - start * g.tile : 0); };
    auto index = [&](SizeType k) { return LocalTileIndex(coord, local(k), 0); };
    auto check_tile = [&](const auto& t, SizeType k, const char* how) {
      const SizeType a = dim, b = extent(k);
      // a column panel has tiles of (extent x width), unless it is stored transposed
      const bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
      VP_CHECK(t.size() == (tall ? TileElementSize(b, a) : TileElementSize(a, b)), "%s gives a tile of %ldx%ld at %ld (extent %ld width %ld) [%s]", how, t.size().rows(), t.size().cols(), k, b, a, trace.c_str());
    };
    auto check_state = [&] {
      VP_CHECK(panel.rangeStart() == start && panel.rangeEnd() == end, "range is [%ld,%ld) instead of [%ld,%ld) [%s]", panel.rangeStart(), panel.rangeEnd(), start, end, trace.c_str());
      VP_CHECK(panel.rangeStartLocal() == next_local(start) && panel.rangeEndLocal() == next_local(end), "local range is [%ld,%ld) instead of [%ld,%ld) [%s]", panel.rangeStartLocal(), panel.rangeEndLocal(), next_local(start),
               next_local(end), trace.c_str());
      VP_CHECK(panel.offsetElement() == start_elem, "offset is %ld instead of %ld [%s]", panel.offsetElement(), start_elem, trace.c_str());
      VP_CHECK(get_dim(panel) == dim, "width is %ld instead of %ld [%s]", get_dim(panel), dim, trace.c_str());
      VP_CHECK(panel.parentDistribution() == dist, "distribution of the panel");
      std::vector<SizeType> want, got;
      for (SizeType k = start; k < end; ++k)
        if (mine(k))
          want.push_back(local(k));
      for (const auto i : panel.iteratorLocal()) {
        got.push_back(i.template get<coord>());
        VP_CHECK(i.template get<axis>() == 0, "index across the panel");
      }
      VP_CHECK(want == got, "indices of the panel [%s]", trace.c_str());
    };
    check_state();

    for (int d = 0; d < depth; ++d) {
      struct Op {
        int kind;
        SizeType a, b;
      };
      std::vector<Op> en;
      const SizeType last = (g.n - 1) / g.tile;  // last tile
      if (!used && !dim_set && g.n > 0) {
        for (SizeType a = g.start; a <= nt; ++a) {
          if (a <= end)
            en.push_back({1, a, 0});
          if (a >= start)
            en.push_back({2, a, 0});  // new end
          for (SizeType b = a; b <= nt; ++b)
            en.push_back({0, a, b});
        }
        for (SizeType e = g.start * g.tile; e < g.n; ++e)
          if (e / g.tile <= end && e / g.tile <= last)
            en.push_back({3, e, 0});
      }
      if (!used)
        for (SizeType w = 1; w <= g.other_tile; ++w)
          en.push_back({4, w, 0});
      for (SizeType m = 0; m < 3; ++m)
        if (start < end)
          en.push_back({5, m, 0});
      if (used || dim_set)
        en.push_back({6, 0, 0});
      const Op o = en[std::size_t(pick(int(en.size())))];
      static const char* names[] = {"range", "start-tile", "end", "start-element", "width", "use", "reset"};
      trace += vp::fmt(" %s(%ld,%ld)", names[o.kind], o.a, o.b);
      vp::context(trace);
      switch (o.kind) {
        case 0:
          panel.setRange(GlobalTileIndex(coord, o.a, 0), GlobalTileIndex(coord, o.b, 0));
          start = o.a;
          end = o.b;
          start_elem = start * g.tile;
          break;
        case 1:
          panel.setRangeStart(GlobalTileIndex(coord, o.a, 0));
          start = o.a;
          start_elem = start * g.tile;
          break;
        case 2:
          panel.setRangeEnd(GlobalTileIndex(coord, o.a, 0));
          end = o.a;
          break;
        case 3:
          panel.setRangeStart(GlobalElementIndex(coord, o.a, 0));
          start = o.a / g.tile;
          start_elem = o.a;
          break;
        case 4:
          set_dim(panel, o.a);
          dim = o.a;
          dim_set = true;
          break;
        case 5:
          // link some of the tiles that have not been used, then write all of the others and read everything
          used = true;
          for (SizeType k = start; k < end; ++k) {
            if (!mine(k))
              continue;
            if (!external.count(k)) {
              external[k] = o.a == 1 || (o.a == 2 && k % 2);
              if (external[k]) {
                const bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
                const TileElementSize sz = tall ? TileElementSize(extent(k), dim) : TileElementSize(dim, extent(k));
                Matrix<T, Device::CPU> ext({sz.rows(), sz.cols()}, sz);
                content[-1 - k] = next++;
                ex::start_detached(ext.readwrite(LocalTileIndex(0, 0)) | ex::then([v = content[-1 - k]](Matrix<T, Device::CPU>::TileType t) {
                                     for (const auto i : common::iterate_range2d(t.size()))
                                       t(i) = v;
                                   }));
                panel.setTile(index(k), ext.read(LocalTileIndex(0, 0)));
              }
            }
            if (!external[k]) {
              content[k] = next++;
              auto t = tt::sync_wait(panel.readwrite(index(k)));
              check_tile(t, k, "readwrite");
              for (const auto i : common::iterate_range2d(t.size()))
                t(i) = content[k];
            }
          }
          for (SizeType k = start; k < end; ++k)
            if (mine(k)) {
              auto t = tt::sync_wait(panel.read(index(k)));
              check_tile(t.get(), k, "read");
              const double want = content[external[k] ? -1 - k : k];
              for (const auto i : common::iterate_range2d(t.get().size()))
                VP_CHECK(t.get()(i) == want, "tile %ld holds %g instead of %g [%s]", k, t.get()(i), want, trace.c_str());
            }
          break;
        case 6:
          panel.reset();
          used = dim_set = false;
          dim = g.other_tile;
          external.clear();
          break;
      }
      check_state();
    }
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive [%s]", vp::pool_live(), trace.c_str());
  ++vp::n_nontrivial;
}

static std::vector<Geo> geometries(SizeType max_n, SizeType max_tile, int max_p) {
  std::vector<Geo> v;
  for (int p = 1; p <= max_p; ++p)
    for (int src = 0; src < p; ++src)
      for (int me = 0; me < p; ++me)
        for (SizeType tile = 1; tile <= max_tile; ++tile)
          for (SizeType n = 0; n <= max_n; ++n)
            for (SizeType start = 0; start <= (n + tile - 1) / tile; ++start)
              v.push_back({n, tile, 3, 2, p, src, me, start});
  return v;
}

// panels of matrices with an offset
template <Coord axis, StoreTransposed S>
static void with_offset() {
  constexpr Coord coord = orthogonal(axis);
  const int p = 1 + pick(3), src = pick(p), me = pick(p);
  const SizeType tile = 1 + pick(3), n = pick(7), o = pick(int(n) + 1), sub = pick(int(n - o) + 1), o2 = pick(2);
  vp::context(vp::fmt("%s panel%s of elements [%ld,%ld) of %ld in tiles of %ld on %d ranks from %d, rank %d", axis == Coord::Col ? "column" : "row", S == StoreTransposed::Yes ? " stored transposed" : "", o, o + sub, n, tile, p, src, me));
  vp::pool_reset();
  vp::ranks(1, 2, [&](int) {
    const Distribution full(GlobalElementSize(axis, 4, n), TileElementSize(axis, 2, tile), comm::Size2D(coord, p, 1), comm::Index2D(coord, me, 0), comm::Index2D(coord, src, 0));
    const Distribution dist(full, {GlobalElementIndex(axis, o2, o), GlobalElementSize(axis, 2, sub)});
    Panel<axis, T, Device::CPU, S> panel(dist);
    SizeType count = 0;
    for (SizeType k = o / tile; k * tile < o + sub; ++k) {
      if (sub == 0 || (k + src) % p != me)
        continue;
      const SizeType ext = std::min((k + 1) * tile, o + sub) - std::max(k * tile, o);
      const LocalTileIndex i(coord, count++, 0);
      auto t = tt::sync_wait(panel.readwrite(i));
      const bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
      VP_CHECK(t.size() == (tall ? TileElementSize(ext, 2) : TileElementSize(2, ext)), "readwrite gives a tile of %ldx%ld, extent %ld", t.size().rows(), t.size().cols(), ext);
      for (const auto e : common::iterate_range2d(t.size()))
        t(e) = 10. * count;
    }
    SizeType seen = 0;
    for (const auto i : panel.iteratorLocal()) {
      ++seen;
      auto t = tt::sync_wait(panel.read(i));
      for (const auto e : common::iterate_range2d(t.get().size()))
        VP_CHECK(t.get()(e) == 10. * seen, "content of tile %ld", seen);
    }
    VP_CHECK(seen == count, "the panel has %ld tiles instead of %ld", seen, count);
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

// What a panel must refuse: changes of range and width once it is in use, ranges outside of it, accesses outside of the
// range, write access to linked tiles and links to tiles in use; reset makes everything possible again
template <Coord axis, StoreTransposed S>
static void refusals() {
  constexpr Coord coord = orthogonal(axis);
  const SizeType n = 3 + pick(4), tile = 2, nt = (n + 1) / 2, first = pick(int(nt)), from = first + pick(int(nt - first)), to = from + 1 + pick(int(nt - from));
  const SizeType k = from + pick(int(to - from));
  const int how = pick(4), p = 1 + pick(2);
  vp::context(vp::fmt("%s panel%s of %ld elements from tile %ld, range [%ld,%ld), tile %ld, access %d", axis == Coord::Col ? "column" : "row", S == StoreTransposed::Yes ? " stored transposed" : "", n, first, from, to, k, how));
  vp::pool_reset();
  vp::ranks(1, 2, [&](int) {
    const int src = p == 1 ? 0 : int((p - k % p) % p);  // this rank (0) owns tile k
    const Distribution dist(GlobalElementSize(axis, 3, n), TileElementSize(axis, 2, tile), comm::Size2D(coord, p, 1), comm::Index2D(coord, 0, 0), comm::Index2D(coord, src, 0));
    Panel<axis, T, Device::CPU, S> panel(dist, GlobalTileIndex(coord, first, 0));
    auto mine = [&](SizeType t) { return (t + src) % p == 0; };
    auto index = [&](SizeType t) { return LocalTileIndex(coord, t / p, 0); };
    auto gt = [&](SizeType t) { return GlobalTileIndex(coord, t, 0); };
    const bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
    const SizeType ext = std::min(tile, n - k * tile);
    const TileElementSize sz = tall ? TileElementSize(ext, 2) : TileElementSize(2, ext);
    Matrix<T, Device::CPU> other({sz.rows(), sz.cols()}, sz);
    auto link = [&] { panel.setTile(index(k), other.read(LocalTileIndex(0, 0))); };

    for (int round = 0; round < 2; ++round) {
      // wrong ranges and widths
      if (first > 0) {
        VP_CHECK(p > 1 || vp::dies([&] { panel.setRangeStart(gt(first - 1)); }), "range that starts before the panel not refused");
        VP_CHECK(p > 1 || vp::dies([&] { panel.setRange(gt(first - 1), gt(nt)); }), "range that starts before the panel not refused");
      }
      panel.setRange(gt(from), gt(to));
      VP_CHECK(vp::dies([&] { panel.setRangeEnd(gt(nt + 1)); }), "range that ends behind the matrix not refused");
      panel.setRange(gt(from), gt(to));
      VP_CHECK(vp::dies([&] { panel.setRange(gt(from), gt(nt + 1)); }), "range that ends behind the matrix not refused");
      panel.setRange(gt(from), gt(to));
      VP_CHECK(vp::dies([&] { panel.setRangeStart(gt(to + 1)); }), "range that starts behind its end not refused");
      panel.setRange(gt(from), gt(to));
      if (from > first) {
        VP_CHECK(vp::dies([&] { panel.setRangeEnd(gt(from - 1)); }), "range that ends before its start not refused");
        panel.setRange(gt(from), gt(to));
        VP_CHECK(vp::dies([&] { panel.setRange(gt(from), gt(from - 1)); }), "range that ends before its start not refused");
        panel.setRange(gt(from), gt(to));
      }
      VP_CHECK(vp::dies([&] { set_dim(panel, 0); }) && vp::dies([&] { set_dim(panel, 3); }) && vp::dies([&] { set_dim(panel, -1); }), "invalid width not refused");
      // accesses outside of the range
      for (SizeType t = 0; t <= nt; ++t)
        if (mine(t) && (t < from || t >= to)) {
          VP_CHECK(vp::dies([&] { panel.read(index(t)); }), "read of tile %ld not refused", t);
          VP_CHECK(vp::dies([&] { panel.readwrite(index(t)); }), "readwrite of tile %ld not refused", t);
          VP_CHECK(vp::dies([&] { panel.setTile(index(t), other.read(LocalTileIndex(0, 0))); }), "link of tile %ld not refused", t);
        }
      panel.reset();
      panel.setRange(gt(from), gt(to));
      switch (how) {
        case 0:
          tt::sync_wait(panel.read(index(k)));
          break;
        case 1:
          tt::sync_wait(panel.readwrite(index(k)));
          break;
        case 2:
          link();
          break;
        case 3:
          link();
          tt::sync_wait(panel.read(index(k)));
          break;
      }
      if (how < 2)
        VP_CHECK(vp::dies(link), "link of a tile in use not refused");
      else {
        VP_CHECK(vp::dies([&] { panel.readwrite(index(k)); }), "write access to a linked tile not refused");
        VP_CHECK(vp::dies(link), "second link of a tile not refused");
      }
      VP_CHECK(vp::dies([&] { panel.setRange(gt(from), gt(to)); }), "setRange of a panel in use not refused");
      VP_CHECK(vp::dies([&] { panel.setRangeStart(gt(from)); }), "setRangeStart of a panel in use not refused");
      VP_CHECK(vp::dies([&] { panel.setRangeStart(GlobalElementIndex(coord, from * tile, 0)); }), "setRangeStart of a panel in use not refused");
      VP_CHECK(vp::dies([&] { panel.setRangeEnd(gt(to)); }), "setRangeEnd of a panel in use not refused");
      VP_CHECK(vp::dies([&] { set_dim(panel, 1); }), "change of the width of a panel in use not refused");
      panel.reset();
    }
  });
  ++vp::n_nontrivial;
}

// ---- broadcasts

static double content(SizeType global_tile, SizeType along, SizeType across, int round) {
  return 1000. * (round + 1) + 100. * double(global_tile) + 10. * double(along) + double(across);
}
// content of the tile with along/across coordinates of the panel
template <Coord axis, StoreTransposed S, class Tile>
static auto& at(const Tile& t, SizeType along, SizeType across) {
  constexpr bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
  return t(tall ? TileElementIndex(along, across) : TileElementIndex(across, along));
}
template <Coord axis, StoreTransposed S, class Tile>
static SizeType n_along(const Tile& t) {
  constexpr bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
  return tall ? t.size().rows() : t.size().cols();
}
template <Coord axis, StoreTransposed S, class Tile>
static SizeType n_across(const Tile& t) {
  constexpr bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
  return tall ? t.size().cols() : t.size().rows();
}

struct Bc {
  int gr, gc;
  SizeType n, tile;
  int sr, sc;
  SizeType start;   // first element of the panel
  SizeType width;   // 0: default
  int root, rounds;
  bool linked;      // the root links tiles of a matrix
  SizeType t_skip, t_end_skip;  // tiles left out of the transposed panel
  std::string str() const {
    return vp::fmt("%dx%d ranks from (%d,%d), %ld elements in tiles of %ld, from element %ld, width %ld, root %d%s, transposed without %ld+%ld tiles, %d rounds", gr, gc, sr, sc, n, tile, start, width, root, linked ? " (linked)" : "", t_skip,
                   t_end_skip, rounds);
  }
};

template <Coord axis, StoreTransposed S, StoreTransposed ST, bool transposed>
static void broadcasts(int gr, int gc, SizeType max_n, SizeType max_tile, int rounds) {
  constexpr Coord coord = orthogonal(axis);
  Bc b;
  b.gr = gr;
  b.gc = gc;
  b.rounds = rounds;
  b.tile = 1 + pick(int(max_tile));
  b.n = pick(int(max_n) + 1);
  b.sr = pick(gr);
  b.sc = pick(gc);
  // If the panels have tiles of a different shape the transposed one can only have square tiles
  constexpr bool same_shape = ((axis == Coord::Col) != (S == StoreTransposed::Yes)) == ((axis == Coord::Row) != (ST == StoreTransposed::Yes));
  const SizeType nt = (b.n + b.tile - 1) / b.tile;
  b.start = same_shape || !transposed ? pick(int(b.n) + 1) : b.tile * pick(int(nt) + 1);
  if (b.start == b.n)
    b.start = nt * b.tile;
  b.width = same_shape || !transposed ? pick(int(b.tile) + 1) : 0;
  b.root = pick(axis == Coord::Col ? gc : gr);
  b.linked = b.width == 0 && b.n % b.tile == 0 && b.start % b.tile == 0 ? pick(2) : false;
  const SizeType first = b.start / b.tile;
  b.t_skip = transposed ? pick(int(std::min<SizeType>(1, nt - first)) + 1) : 0;
  b.t_end_skip = transposed && nt - first - b.t_skip > 0 ? pick(2) : 0;
  if (transposed && !same_shape && b.n % b.tile && nt - first - b.t_skip - b.t_end_skip > 0 && b.t_end_skip == 0)
    b.t_end_skip = 1;
  if (b.rounds > 1 && b.linked)
    b.rounds = 1;
  vp::context(b.str());
  vp::pool_reset();
  vp::ranks(gr * gc, 2, [&](int) {
    CommunicatorGrid grid(Communicator(MPI_COMM_WORLD), gr, gc, common::Ordering::ColumnMajor);
    const Distribution dist({b.n, b.n}, {b.tile, b.tile}, grid.size(), grid.rank(), {b.sr, b.sc});
    auto row = grid.row_communicator_pipeline();
    auto col = grid.col_communicator_pipeline();
    Panel<axis, T, Device::CPU, S> panel(dist);
    Panel<coord, T, Device::CPU, ST> panel_t(dist);
    Matrix<T, Device::CPU> mat(dist);
    SizeType start = b.start;
    for (int round = 0; round < b.rounds; ++round) {
      const bool is_root = grid.rank().get(axis) == b.root;
      const SizeType s0 = start / b.tile, off = start - s0 * b.tile;
      if (start < b.n)
        panel.setRangeStart(GlobalElementIndex(coord, start, 0));
      else
        panel.setRangeStart(GlobalTileIndex(coord, nt, 0));
      const SizeType width = b.width ? b.width : b.tile;
      if (b.width)
        set_dim(panel, b.width);
      // content of the root
      for (const auto i : panel.iteratorLocal()) {
        const SizeType k = dist.template globalTileFromLocalTile<coord>(i.template get<coord>());
        auto fill = [=](const matrix::Tile<T, Device::CPU>& t) {
          const SizeType o = k == s0 ? off : 0;
          for (SizeType y = 0; y < n_across<axis, S>(t); ++y)
            for (SizeType x = 0; x < n_along<axis, S>(t); ++x)
              at<axis, S>(t, x, y) = content(k, x + o, y, round);
        };
        if (is_root && b.linked && dist.localNrTiles().get<axis>() > 0 && S == StoreTransposed::No) {
          const LocalTileIndex m(coord, i.template get<coord>(), 0);
          ex::start_detached(mat.readwrite(m) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), fill));
          panel.setTile(i, mat.read(m));
        }
        else if (is_root)
          ex::start_detached(panel.readwrite(i) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), fill));
        else
          ex::start_detached(panel.readwrite(i) | dlaf::internal::transform(dlaf::internal::Policy<Backend::MC>(), [](const matrix::Tile<T, Device::CPU>& t) {
                               for (const auto e : common::iterate_range2d(t.size()))
                                 t(e) = -5;
                             }));
      }
      if constexpr (transposed) {
        const SizeType t0 = std::min(s0 + b.t_skip, nt), t1 = std::max(t0, nt - b.t_end_skip);
        panel_t.setRange(GlobalTileIndex(axis, t0, 0), GlobalTileIndex(axis, t1, 0));
        if (b.t_skip == 0 && off > 0 && t0 < t1)
          panel_t.setRangeStart(GlobalElementIndex(axis, start, 0));
        if (b.width)
          set_dim(panel_t, b.width);
        comm::broadcast(b.root, panel, panel_t, row, col);
      }
      else if constexpr (axis == Coord::Col)
        comm::broadcast(b.root, panel, row);
      else
        comm::broadcast(b.root, panel, col);
      // everybody sees the content of the root
      auto verify = [&](auto& p, const char* what, auto ax, auto st, SizeType skip, auto n_want) {
        constexpr Coord A = decltype(ax)::value;
        constexpr StoreTransposed ST_ = decltype(st)::value;
        constexpr Coord C = orthogonal(A);
        SizeType n = 0;
        for (const auto i : p.iteratorLocal()) {
          ++n;
          const SizeType k = dist.template globalTileFromLocalTile<C>(i.template get<C>());
          const SizeType o = k == s0 ? off : 0;
          const SizeType len = std::min(b.tile, b.n - k * b.tile) - o;
          ex::start_detached(p.read(i) | ex::then([=](const auto& w) {
                               const auto& t = w.get();
                               // (a tile of the other shape is only linked if it is square)
                               VP_CHECK((n_along<A, ST_>(t) == len && n_across<A, ST_>(t) == width), "%s: tile %ld has %ldx%ld elements instead of %ldx%ld", what, k, n_along<A, ST_>(t), n_across<A, ST_>(t), len, width);
                               for (SizeType y = 0; y < width; ++y)
                                 for (SizeType x = 0; x < len; ++x) {
                                   // data are not transposed
                                   constexpr bool tall = (axis == Coord::Col) != (S == StoreTransposed::Yes);
                                   const T v = t(tall ? TileElementIndex(x, y) : TileElementIndex(y, x));
                                   VP_CHECK(v == content(k, x + o, y, round), "%s: element (%ld,%ld) of tile %ld is %g instead of %g", what, x, y, k, v, content(k, x + o, y, round));
                                 }
                             }));
        }
        VP_CHECK(n == n_want, "%s has %ld tiles instead of %ld", what, n, n_want);
        (void) skip;
      };
      auto count = [&](Coord c, SizeType a, SizeType e) {
        SizeType n = 0;
        for (SizeType k = a; k < e; ++k)
          n += (c == Coord::Row ? dist.template rankGlobalTile<Coord::Row>(k) == grid.rank().row() : dist.template rankGlobalTile<Coord::Col>(k) == grid.rank().col());
        return n;
      };
      verify(panel, "panel", std::integral_constant<Coord, axis>{}, std::integral_constant<StoreTransposed, S>{}, 0, count(coord, s0, nt));
      if constexpr (transposed) {
        const SizeType t0 = std::min(s0 + b.t_skip, nt), t1 = std::max(t0, nt - b.t_end_skip);
        verify(panel_t, "transposed panel", std::integral_constant<Coord, coord>{}, std::integral_constant<StoreTransposed, ST>{}, b.t_skip, count(axis, t0, t1));
        panel_t.reset();
      }
      // the root goes on with its tiles
      if (is_root && !b.linked)
        for (const auto i : panel.iteratorLocal())
          ex::start_detached(panel.readwrite(i) | ex::then([](matrix::Tile<T, Device::CPU> t) {
                               for (const auto e : common::iterate_range2d(t.size()))
                                 t(e) = -1;
                             }));
      panel.reset();
      start = std::min(start + (same_shape || !transposed ? 1 : b.tile), b.n);
      if (start == b.n)
        start = nt * b.tile;
    }
    row.reset();
    col.reset();
    grid.wait_all_communicators();
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P14";
    s.rule = "all geometries of panels within the bound and all histories of ranges, widths, accesses, linked tiles and resets up to the depth; all broadcasts of panels over the grids, ranges, widths and roots within the bound, "
             "under the base schedules and deviations; non-trivial: a history or broadcast";
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    constexpr auto Row = Coord::Row, Col = Coord::Col;
    constexpr auto Y = StoreTransposed::Yes, N = StoreTransposed::No;
    auto hist = [&](const char* what, auto f) {
      auto g1 = geometries(thorough ? 7 : 5, 3, 3), g2 = geometries(thorough ? 4 : 3, 2, 2);
      auto c = vp::history_case(std::string("histories, ") + what, [=] { f(g1, 2); }, 4);
      s.cases.push_back(c);
      c = vp::history_case(std::string("long histories, ") + what, [=] { f(g2, thorough ? 4 : 3); }, 24);
      s.cases.push_back(c);
    };
    hist("column", [](const auto& g, int d) { histories<Col, N>(g, d); });
    hist("row", [](const auto& g, int d) { histories<Row, N>(g, d); });
    hist("column stored transposed", [](const auto& g, int d) { histories<Col, Y>(g, d); });
    hist("row stored transposed", [](const auto& g, int d) { histories<Row, Y>(g, d); });
    s.cases.push_back(vp::history_case("offset, column", [] { with_offset<Col, N>(); }, 4));
    s.cases.push_back(vp::history_case("offset, row", [] { with_offset<Row, N>(); }, 4));
    s.cases.push_back(vp::history_case("offset, column stored transposed", [] { with_offset<Col, Y>(); }, 4));
    s.cases.push_back(vp::history_case("offset, row stored transposed", [] { with_offset<Row, Y>(); }, 4));
    s.cases.push_back(vp::history_case("refusals, column", [] { refusals<Col, N>(); }, 4));
    s.cases.push_back(vp::history_case("refusals, row", [] { refusals<Row, N>(); }, 4));
    s.cases.push_back(vp::history_case("refusals, column stored transposed", [] { refusals<Col, Y>(); }, 4));
    s.cases.push_back(vp::history_case("refusals, row stored transposed", [] { refusals<Row, Y>(); }, 4));
    const SizeType t = thorough;
    auto bc = [&](const char* what, auto f) {
      auto add = [&](int r, int c, SizeType n, SizeType tile, int rounds, int dev, unsigned pol, bool hb) {
        auto k = vp::sched_case(vp::fmt("broadcast %s on %dx%d, up to %ld elements in tiles up to %ld, %d rounds", what, r, c, n, tile, rounds), [=] { f(r, c, n, tile, rounds); }, dev, pol, true, hb);
        k.split = 12;
        s.cases.push_back(k);
      };
      constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO;
      add(1, 2, 3 + t, 2, 1, 0, thorough ? unsigned(ALL_POLICIES) : two, false);
      add(2, 1, 3 + t, 2, 1, 0, thorough ? unsigned(ALL_POLICIES) : two, false);
      add(2, 2, 2 + t, 2, 1, 0, thorough ? unsigned(BASIC_POLICIES) : one, false);
      add(1, 2, 3, 2, 2, 0, thorough ? unsigned(ALL_POLICIES) : one, false);
      add(2, 2, 2, 1, 1, 0, ALL_POLICIES, true);
      add(1, 2, 2, 1, 1, t, thorough ? unsigned(ALL_POLICIES) : one, true);
      add(2, 1, 1, 1, 1, 1, thorough ? unsigned(ALL_POLICIES) : one, true);
      if (thorough) {
        add(3, 1, 4, 2, 1, 0, BASIC_POLICIES, false);
        add(1, 3, 4, 2, 1, 0, BASIC_POLICIES, false);
        add(2, 2, 3, 2, 2, 0, one, false);
        add(2, 2, 1, 1, 1, 1, one, true);
        add(2, 3, 3, 1, 1, 0, one, false);
      }
    };
    bc("column", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Col, N, N, false>(r, c, n, t, k); });
    bc("row", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Row, N, N, false>(r, c, n, t, k); });
    bc("row stored transposed", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Row, Y, N, false>(r, c, n, t, k); });
    bc("column to row", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Col, N, N, true>(r, c, n, t, k); });
    bc("row to column", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Row, N, N, true>(r, c, n, t, k); });
    bc("column to row stored transposed", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Col, N, Y, true>(r, c, n, t, k); });
    bc("row to column stored transposed", [](int r, int c, SizeType n, SizeType t, int k) { broadcasts<Row, N, Y, true>(r, c, n, t, k); });
    return s;
  });
}
