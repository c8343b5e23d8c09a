// P02: every conversion of a Distribution against the reference partition.
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>

#include "dist_ref.hpp"
#include "pure.hpp"

using namespace dlaf;
using dlaf::matrix::Distribution;
using ref::Dist1;
using ref::P1;
namespace ext = dlaf::matrix::internal::distribution;

static std::string str(const P1& p) {
  return vp::fmt("{n=%ld nb=%ld tpb=%ld grid=%d src=%d off=%ld}", p.n, p.nb, p.tpb, p.grid, p.src, p.off);
}

#define EQ(a, b, ...)                                                                                       \
  do {                                                                                                      \
    const auto va_ = (a);                                                                                   \
    const auto vb_ = (b);                                                                                   \
    VP_CHECK(va_ == static_cast<std::decay_t<decltype(va_)>>(vb_), "is %ld, expected %ld, " __VA_ARGS__);   \
  } while (0)
#undef EQ
template <class A, class B>
static void eq(const char* what, A a, B b, SizeType x, const P1& p, int rank) {
  VP_CHECK(static_cast<SizeType>(a) == static_cast<SizeType>(b), "%s(%ld) is %ld, expected %ld; %s rank=%d", what, x,
           static_cast<SizeType>(a), static_cast<SizeType>(b), str(p).c_str(), rank);
}

template <Coord rc>
static void check_1d(const Distribution& d, const Dist1& r, int rank, bool deprecated) {
  const P1& p = r.p;
  auto E = [&](const char* what, auto a, auto b, SizeType x = 0) { eq(what, a, b, x, p, rank); };
  E("size", d.size().get<rc>(), p.n);
  E("tile_size", d.tile_size().get<rc>(), p.nb);
  E("block_size", d.block_size().get<rc>(), p.nb * p.tpb);
  E("grid_size", d.grid_size().get<rc>(), p.grid);
  E("rank_index", d.rank_index().get<rc>(), rank);
  E("source_rank_index", d.source_rank_index().get<rc>(), r.src);
  E("offset", d.offset().get<rc>(), r.off);
  E("nr_tiles", d.nr_tiles().get<rc>(), r.nt);
  E("local_nr_tiles", d.local_nr_tiles().get<rc>(), r.local_nt(rank));
  E("local_size", d.local_size().get<rc>(), r.local_n(rank));
  E("nr_blocks", d.nr_blocks().get<rc>(), r.nblk);
  E("local_nr_blocks", d.local_nr_blocks().get<rc>(), r.lblk[static_cast<std::size_t>(rank)]);
  E("global_tile_offset", ext::global_tile_offset<rc>(d), r.off / p.nb);
  E("global_tile_element_offset", ext::global_tile_element_offset<rc>(d), r.off % p.nb);

  for (SizeType e = 0; e < p.n; ++e) {
    const auto u = static_cast<std::size_t>(e);
    const SizeType t = r.tile[u];
    const bool mine = r.owner[u] == rank;
    ++vp::n_nontrivial;
    E("global_tile_from_global_element", d.global_tile_from_global_element<rc>(e), t, e);
    E("tile_element_from_global_element", d.tile_element_from_global_element<rc>(e), r.el[u], e);
    E("rank_global_element", d.rank_global_element<rc>(e), r.owner[u], e);
    E("local_tile_from_global_element", d.local_tile_from_global_element<rc>(e), mine ? r.tlocal[static_cast<std::size_t>(t)] : -1, e);
    E("next_local_tile_from_global_element", d.next_local_tile_from_global_element<rc>(e), r.local_before(rank, t), e);
    E("local_element_from_global_element", d.local_element_from_global_element<rc>(e), mine ? r.lel[u] : -1, e);
    E("global_element_from_global_tile_and_tile_element", d.global_element_from_global_tile_and_tile_element<rc>(t, r.el[u]), e, t);
    E("distance_to_adjacent_tile", ext::distance_to_adjacent_tile<rc>(d, e), r.start[static_cast<std::size_t>(t)] + r.size[static_cast<std::size_t>(t)] - e, e);
    if (mine)
      E("global_element_from_local_tile_and_tile_element", d.global_element_from_local_tile_and_tile_element<rc>(r.tlocal[static_cast<std::size_t>(t)], r.el[u]), e, e);
    if (deprecated) {
      E("globalTileFromGlobalElement", d.globalTileFromGlobalElement<rc>(e), t, e);
      E("tileElementFromGlobalElement", d.tileElementFromGlobalElement<rc>(e), r.el[u], e);
      E("rankGlobalElement", d.rankGlobalElement<rc>(e), r.owner[u], e);
      E("localTileFromGlobalElement", d.localTileFromGlobalElement<rc>(e), mine ? r.tlocal[static_cast<std::size_t>(t)] : -1, e);
      E("nextLocalTileFromGlobalElement", d.nextLocalTileFromGlobalElement<rc>(e), r.local_before(rank, t), e);
      E("localElementFromGlobalElement", d.localElementFromGlobalElement<rc>(e), mine ? r.lel[u] : -1, e);
      E("globalElementFromGlobalTileAndTileElement", d.globalElementFromGlobalTileAndTileElement<rc>(t, r.el[u]), e, e);
      E("distanceToAdjacentTile", d.distanceToAdjacentTile<rc>(e), r.start[static_cast<std::size_t>(t)] + r.size[static_cast<std::size_t>(t)] - e, e);
      if (mine)
        E("globalElementFromLocalTileAndTileElement", d.globalElementFromLocalTileAndTileElement<rc>(r.tlocal[static_cast<std::size_t>(t)], r.el[u]), e, e);
    }
  }
  for (SizeType t = 0; t <= r.nt; ++t) {
    E("next_local_tile_from_global_tile", d.next_local_tile_from_global_tile<rc>(t), r.local_before(rank, t), t);
    if (deprecated)
      E("nextLocalTileFromGlobalTile", d.nextLocalTileFromGlobalTile<rc>(t), r.local_before(rank, t), t);
    if (t == r.nt)
      break;
    const auto u = static_cast<std::size_t>(t);
    const bool mine = r.towner[u] == rank;
    E("rank_global_tile", d.rank_global_tile<rc>(t), r.towner[u], t);
    E("global_tile_size_of", d.global_tile_size_of<rc>(t), r.size[u], t);
    E("local_tile_from_global_tile", d.local_tile_from_global_tile<rc>(t), mine ? r.tlocal[u] : -1, t);
    E("local_tile_from_global_tile_any_rank", ext::local_tile_from_global_tile_any_rank<rc>(d, t), r.tlocal[u], t);
    if (deprecated) {
      E("rankGlobalTile", d.rankGlobalTile<rc>(t), r.towner[u], t);
      E("tileSize", d.tileSize<rc>(t), r.size[u], t);
      E("localTileFromGlobalTile", d.localTileFromGlobalTile<rc>(t), mine ? r.tlocal[u] : -1, t);
    }
    // distances
    for (SizeType t2 = t; t2 <= r.nt; ++t2) {
      const SizeType end = t2 == r.nt ? p.n : r.start[static_cast<std::size_t>(t2)];
      E("global_tile_element_distance", ext::global_tile_element_distance<rc>(d, t, t2), end - r.start[u], t2);
      SizeType dist = 0;
      for (SizeType k = t; k < t2; ++k)
        if (r.towner[static_cast<std::size_t>(k)] == rank)
          dist += r.size[static_cast<std::size_t>(k)];
      E("local_element_distance_from_global_tile", ext::local_element_distance_from_global_tile<rc>(d, t, t2), dist, t2);
      if (deprecated) {
        E("globalTileElementDistance", d.globalTileElementDistance<rc>(t, t2), end - r.start[u], t2);
        E("localElementDistanceFromGlobalTile", d.localElementDistanceFromGlobalTile<rc>(t, t2), dist, t2);
      }
    }
  }
  const auto& lt = r.ltiles[static_cast<std::size_t>(rank)];
  for (SizeType l = 0; l < r.local_nt(rank); ++l) {
    const SizeType g = lt[static_cast<std::size_t>(l)];
    E("global_tile_from_local_tile", d.global_tile_from_local_tile<rc>(l), g, l);
    E("local_tile_size_of", d.local_tile_size_of<rc>(l), r.size[static_cast<std::size_t>(g)], l);
    if (deprecated)
      E("globalTileFromLocalTile", d.globalTileFromLocalTile<rc>(l), g, l);
    for (SizeType l2 = l; l2 <= r.local_nt(rank); ++l2) {
      SizeType dist = 0;
      for (SizeType k = l; k < l2; ++k)
        dist += r.size[static_cast<std::size_t>(lt[static_cast<std::size_t>(k)])];
      E("local_element_distance_from_local_tile", ext::local_element_distance_from_local_tile<rc>(d, l, l2), dist, l2);
      if (deprecated)
        E("localElementDistanceFromLocalTile", d.localElementDistanceFromLocalTile<rc>(l, l2), dist, l2);
    }
  }
  for (SizeType l = 0; l < r.local_n(rank); ++l) {
    const SizeType e = r.lels[static_cast<std::size_t>(rank)][static_cast<std::size_t>(l)];
    const auto u = static_cast<std::size_t>(e);
    E("global_element_from_local_element", d.global_element_from_local_element<rc>(l), e, l);
    E("local_tile_from_local_element", d.local_tile_from_local_element<rc>(l), r.tlocal[static_cast<std::size_t>(r.tile[u])], l);
    E("tile_element_from_local_element", d.tile_element_from_local_element<rc>(l), r.el[u], l);
    E("local_element_from_local_tile_and_tile_element", d.local_element_from_local_tile_and_tile_element<rc>(r.tlocal[static_cast<std::size_t>(r.tile[u])], r.el[u]), l, l);
    if (deprecated) {
      E("globalElementFromLocalElement", d.globalElementFromLocalElement<rc>(l), e, l);
      E("localTileFromLocalElement", d.localTileFromLocalElement<rc>(l), r.tlocal[static_cast<std::size_t>(r.tile[u])], l);
      E("tileElementFromLocalElement", d.tileElementFromLocalElement<rc>(l), r.el[u], l);
    }
  }
  // what another rank sees
  for (int q = 0; q < p.grid; ++q) {
    E("local_tile_offset_on_rank", ext::local_tile_offset_on_rank<rc>(d, q), q == r.src ? r.off / p.nb : 0, q);
    E("local_tile_element_offset_on_rank", ext::local_tile_element_offset_on_rank<rc>(d, q), q == r.src ? r.off % p.nb : 0, q);
    for (SizeType l = 0; l < r.local_nt(q); ++l)
      E("global_tile_from_local_tile_on_rank", ext::global_tile_from_local_tile_on_rank<rc>(d, q, l), r.ltiles[static_cast<std::size_t>(q)][static_cast<std::size_t>(l)], l);
    for (SizeType l = 0; l < r.local_n(q); ++l) {
      const SizeType e = r.lels[static_cast<std::size_t>(q)][static_cast<std::size_t>(l)];
      const auto u = static_cast<std::size_t>(e);
      E("global_element_from_local_element_on_rank", ext::global_element_from_local_element_on_rank<rc>(d, q, l), e, l);
      E("local_tile_from_local_element_on_rank", ext::local_tile_from_local_element_on_rank<rc>(d, q, l), r.tlocal[static_cast<std::size_t>(r.tile[u])], l);
      E("tile_element_from_local_element_on_rank", ext::tile_element_from_local_element_on_rank<rc>(d, q, l), r.el[u], l);
    }
  }
}

static void check_2d(const Distribution& d, const Dist1& R, const Dist1& C, int rr, int rc) {
  const std::string ctx = str(R.p) + str(C.p) + vp::fmt(" rank=(%d,%d)", rr, rc);
  const char* x = ctx.c_str();
  VP_CHECK(d.size() == GlobalElementSize(R.p.n, C.p.n), "%s", x);
  VP_CHECK(d.local_size() == LocalElementSize(R.local_n(rr), C.local_n(rc)) && d.localSize() == d.local_size(), "%s", x);
  VP_CHECK(d.nr_tiles() == GlobalTileSize(R.nt, C.nt) && d.nrTiles() == d.nr_tiles(), "%s", x);
  VP_CHECK(d.local_nr_tiles() == LocalTileSize(R.local_nt(rr), C.local_nt(rc)) && d.localNrTiles() == d.local_nr_tiles(), "%s", x);
  VP_CHECK(d.rankIndex() == comm::Index2D(rr, rc) && d.commGridSize() == comm::Size2D(R.p.grid, C.p.grid) &&
               d.sourceRankIndex() == comm::Index2D(R.src, C.src) && d.baseTileSize() == TileElementSize(R.p.nb, C.p.nb),
           "%s", x);
  VP_CHECK(d.single_tile_per_block() == (R.p.tpb == 1 && C.p.tpb == 1), "%s", x);
  for (SizeType j = 0; j < C.nt; ++j)
    for (SizeType i = 0; i < R.nt; ++i) {
      const auto ui = static_cast<std::size_t>(i), uj = static_cast<std::size_t>(j);
      const GlobalTileIndex ij(i, j);
      VP_CHECK(d.rank_global_tile(ij) == comm::Index2D(R.towner[ui], C.towner[uj]), "%s", x);
      VP_CHECK(d.rankGlobalTile(ij) == comm::Index2D(R.towner[ui], C.towner[uj]), "%s", x);
      VP_CHECK(d.tile_size_of(ij) == TileElementSize(R.size[ui], C.size[uj]), "%s", x);
      VP_CHECK(d.tileSize(ij) == TileElementSize(R.size[ui], C.size[uj]), "%s", x);
      const TileElementIndex last(R.size[ui] - 1, C.size[uj] - 1);
      VP_CHECK(d.global_element_index(ij, {0, 0}) == GlobalElementIndex(R.start[ui], C.start[uj]), "%s", x);
      VP_CHECK(d.global_element_index(ij, last) == GlobalElementIndex(R.start[ui] + R.size[ui] - 1, C.start[uj] + C.size[uj] - 1), "%s", x);
      VP_CHECK(d.globalElementIndex(ij, last) == d.global_element_index(ij, last), "%s", x);
      for (const GlobalElementIndex& e : {GlobalElementIndex(R.start[ui], C.start[uj]), d.global_element_index(ij, last)}) {
        VP_CHECK(d.global_tile_index(e) == ij && d.globalTileIndex(e) == ij, "%s", x);
        VP_CHECK(ext::global_tile_linear_index(d, e) == i + j * R.nt && d.globalTileLinearIndex(e) == i + j * R.nt, "%s", x);
        const TileElementIndex te(R.el[static_cast<std::size_t>(e.row())], C.el[static_cast<std::size_t>(e.col())]);
        VP_CHECK(d.tile_element_index(e) == te && d.tileElementIndex(e) == te, "%s", x);
      }
      if (R.towner[ui] == rr && C.towner[uj] == rc) {
        const LocalTileIndex l(R.tlocal[ui], C.tlocal[uj]);
        VP_CHECK(d.local_tile_index(ij) == l && d.localTileIndex(ij) == l, "%s", x);
        VP_CHECK(d.global_tile_index(l) == ij && d.globalTileIndex(l) == ij, "%s", x);
        VP_CHECK(d.tile_size_of(l) == TileElementSize(R.size[ui], C.size[uj]), "%s", x);
        VP_CHECK(ext::local_tile_linear_index(d, l) == l.row() + l.col() * R.local_nt(rr), "%s", x);
        VP_CHECK(d.localTileLinearIndex(l) == l.row() + l.col() * R.local_nt(rr), "%s", x);
        VP_CHECK(ext::local_element_distance_from_local_tile(d, {0, 0}, l) ==
                     LocalElementSize(ext::local_element_distance_from_local_tile<Coord::Row>(d, 0, l.row()),
                                      ext::local_element_distance_from_local_tile<Coord::Col>(d, 0, l.col())),
                 "%s", x);
        for (SizeType bj = 0; bj <= l.col(); ++bj)
          for (SizeType bi = 0; bi <= l.row(); ++bi) {
            const LocalElementSize want(ext::local_element_distance_from_local_tile<Coord::Row>(d, bi, l.row()),
                                        ext::local_element_distance_from_local_tile<Coord::Col>(d, bj, l.col()));
            VP_CHECK(ext::local_element_distance_from_local_tile(d, {bi, bj}, l) == want, "%s from (%ld,%ld)", x, bi, bj);
          }
        VP_CHECK(d.localElementDistanceFromLocalTile({0, 0}, l) == ext::local_element_distance_from_local_tile(d, {0, 0}, l), "%s", x);
      }
    }
}

static Distribution make(const P1& r, const P1& c, int rr, int rc) {
  return Distribution(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb * r.tpb, c.nb * c.tpb), TileElementSize(r.nb, c.nb),
                      comm::Size2D(r.grid, c.grid), comm::Index2D(rr, rc), comm::Index2D(r.src, c.src),
                      GlobalElementIndex(r.off, c.off));
}

static void check_pair(const P1& pr, const P1& pc, bool full, bool deprecated) {
  const Dist1 R(pr), C(pc);
  vp::context(str(pr) + str(pc));
  for (int rr = 0; rr < pr.grid; ++rr)
    for (int rc = 0; rc < pc.grid; ++rc) {
      const Distribution d = make(pr, pc, rr, rc);
      check_1d<Coord::Row>(d, R, rr, deprecated);
      if (full) {
        check_1d<Coord::Col>(d, C, rc, deprecated);
        check_2d(d, R, C, rr, rc);
      }
      // the other constructors describe the same layout
      const SizeType tr = pr.off / pr.nb, tc = pc.off / pc.nb;
      const Distribution d2(GlobalElementSize(pr.n, pc.n), GlobalElementSize(pr.nb * pr.tpb, pc.nb * pc.tpb), TileElementSize(pr.nb, pc.nb),
                            comm::Size2D(pr.grid, pc.grid), comm::Index2D(rr, rc), comm::Index2D(pr.src, pc.src), GlobalTileIndex(tr, tc),
                            GlobalElementIndex(pr.off - tr * pr.nb, pc.off - tc * pc.nb));
      VP_CHECK(d == d2 && !(d != d2), "constructor with tile offset");
      const GlobalElementSize sz(pr.n, pc.n), bs(pr.nb * pr.tpb, pc.nb * pc.tpb);
      const TileElementSize ts(pr.nb, pc.nb);
      const comm::Size2D gs(pr.grid, pc.grid);
      const comm::Index2D rk(rr, rc), src(pr.src, pc.src);
      const bool one = pr.tpb == 1 && pc.tpb == 1;
      if (pr.off == 0 && pc.off == 0) {
        VP_CHECK(Distribution(sz, bs, ts, gs, rk, src) == d, "default offset");
        if (one)
          VP_CHECK(Distribution(sz, ts, gs, rk, src) == d, "default offset, tiles");
        if (one && pr.grid == 1 && pc.grid == 1)
          VP_CHECK(Distribution(LocalElementSize(pr.n, pc.n), ts) == d, "default offset, local");
      }
      if (pr.off % pr.nb == 0 && pc.off % pc.nb == 0) {
        VP_CHECK(Distribution(sz, bs, ts, gs, rk, src, GlobalTileIndex(tr, tc)) == d, "default element offset");
        if (one)
          VP_CHECK(Distribution(sz, ts, gs, rk, src, GlobalTileIndex(tr, tc)) == d, "default element offset, tiles");
      }
      if (pr.tpb == 1 && pc.tpb == 1) {
        const Distribution d3(GlobalElementSize(pr.n, pc.n), TileElementSize(pr.nb, pc.nb), comm::Size2D(pr.grid, pc.grid),
                              comm::Index2D(rr, rc), comm::Index2D(pr.src, pc.src), GlobalElementIndex(pr.off, pc.off));
        const Distribution d4(GlobalElementSize(pr.n, pc.n), TileElementSize(pr.nb, pc.nb), comm::Size2D(pr.grid, pc.grid),
                              comm::Index2D(rr, rc), comm::Index2D(pr.src, pc.src), GlobalTileIndex(tr, tc),
                              GlobalElementIndex(pr.off - tr * pr.nb, pc.off - tc * pc.nb));
        VP_CHECK(d == d3 && d == d4, "constructors without block size");
        if (pr.grid == 1 && pc.grid == 1) {
          const Distribution d5(LocalElementSize(pr.n, pc.n), TileElementSize(pr.nb, pc.nb), GlobalElementIndex(pr.off, pc.off));
          VP_CHECK(d == d5, "local constructor");
        }
      }
      // a distribution whose tiles are the blocks
      {
        const P1 br{pr.n, pr.nb * pr.tpb, 1, pr.grid, pr.src, pr.off}, bc{pc.n, pc.nb * pc.tpb, 1, pc.grid, pc.src, pc.off};
        const Distribution b = dlaf::matrix::internal::create_single_tile_per_block_distribution(d);
        check_1d<Coord::Row>(b, Dist1(br), rr, false);
        VP_CHECK(b == make(br, bc, rr, rc), "create_single_tile_per_block_distribution");
      }
      // copies and moves
      Distribution a = d;
      VP_CHECK(a == d, "copy");
      Distribution m = std::move(a);
      VP_CHECK(m == d && a == Distribution(), "move construction");
      check_1d<Coord::Row>(a, Dist1(P1{0, 1, 1, 1, 0, 0}), 0, false);
      Distribution k(LocalElementSize(3, 4), TileElementSize(2, 2));
      k = std::move(m);
      VP_CHECK(k == d && m == Distribution(), "move assignment");
      m = k;
      VP_CHECK(m == d && k == d, "copy assignment");
    }
}

// equality of distributions: compares exactly the described layout
static void equality() {
  std::vector<std::pair<Distribution, std::array<SizeType, 16>>> v;
  auto add = [&](const P1& r, const P1& c, int rr, int rc) {
    const Dist1 R(r), C(c);
    v.push_back({make(r, c, rr, rc), {r.n, r.nb, r.tpb, r.grid, R.src, R.off, rr, c.n, c.nb, c.tpb, c.grid, C.src, C.off, rc, 0, 0}});
  };
  std::vector<P1> ps;
  for (SizeType n : {0, 5, 6})
    for (SizeType nb : {2, 3})
      for (SizeType tpb : {1, 2})
        for (int grid : {1, 2})
          for (int src = 0; src < grid; ++src)
            for (SizeType off : {0, 1, 2, 4, 8})
              ps.push_back({n, nb, tpb, grid, src, off});
  const P1 fix{4, 3, 1, 2, 1, 1};
  for (auto& p : ps)
    for (int r = 0; r < p.grid; ++r) {
      add(p, fix, r, 0);
      add(fix, p, 1, r);
    }
  for (auto& a : v)
    for (auto& b : v) {
      const bool same = a.second == b.second;
      VP_CHECK((a.first == b.first) == same, "equality");
      VP_CHECK((a.first != b.first) == !same, "inequality");
    }
}

// what does not describe a distribution is refused
static void refuse() {
  struct Q {
    SizeType n[2] = {4, 3}, block[2] = {4, 2}, tile[2] = {2, 1}, grid[2] = {2, 1}, rank[2] = {1, 0}, src[2] = {0, 0};
  };
  auto one = [](const Q& q) {
    const GlobalElementSize n(q.n[0], q.n[1]), block(q.block[0], q.block[1]);
    const TileElementSize tile(q.tile[0], q.tile[1]);
    const comm::Size2D grid(int(q.grid[0]), int(q.grid[1]));
    const comm::Index2D rank(int(q.rank[0]), int(q.rank[1])), src(int(q.src[0]), int(q.src[1]));
    bool ok = true;
    for (int k = 0; k < 2; ++k)
      ok = ok && q.n[k] >= 0 && q.tile[k] > 0 && q.grid[k] > 0 && q.rank[k] >= 0 && q.rank[k] < q.grid[k] && q.src[k] >= 0 && q.src[k] < q.grid[k];
    bool ok_block = ok;
    for (int k = 0; k < 2; ++k)
      ok_block = ok_block && q.block[k] > 0 && (q.tile[k] > 0 && q.block[k] % q.tile[k] == 0);
    bool ok_local = true;
    for (int k = 0; k < 2; ++k)
      ok_local = ok_local && q.n[k] >= 0 && q.tile[k] > 0;
    ++vp::n_nontrivial;
    vp::context(vp::fmt("size %ldx%ld block %ldx%ld tile %ldx%ld grid %ldx%ld rank (%ld,%ld) source (%ld,%ld)", q.n[0], q.n[1], q.block[0], q.block[1], q.tile[0], q.tile[1], q.grid[0], q.grid[1], q.rank[0], q.rank[1], q.src[0], q.src[1]));
    auto check = [](bool want, const char* what, auto f) {
      const bool died = vp::dies(f);
      VP_CHECK(died == !want, "%s: %s", what, died ? "refused" : "accepted");
    };
    // (a division by a tile size of zero comes before it can be looked at where there are tile offsets)
    const bool tiles = q.tile[0] != 0 && q.tile[1] != 0;
    if (tiles || ok_block) {
      check(ok_block, "block size", [&] { Distribution d(n, block, tile, grid, rank, src); });
      check(ok_block, "block size, tile offset", [&] { Distribution d(n, block, tile, grid, rank, src, GlobalTileIndex(1, 1)); });
      check(ok, "tile size", [&] { Distribution d(n, tile, grid, rank, src); });
      check(ok, "tile size, tile offset", [&] { Distribution d(n, tile, grid, rank, src, GlobalTileIndex(1, 1)); });
    }
    check(ok_local, "local", [&] { Distribution d(LocalElementSize(q.n[0], q.n[1]), tile); });
  };
  const SizeType v[] = {-1, 0, 1, 2, 3, 4};
  using M = SizeType (Q::*)[2];
  const M ms[] = {&Q::n, &Q::block, &Q::tile, &Q::grid, &Q::rank, &Q::src};
  for (M a : ms)
    for (int ka = 0; ka < 2; ++ka)
      for (SizeType va : v)
        for (M b : ms)
          for (int kb = 0; kb < 2; ++kb)
            for (SizeType vb : v) {
              Q q;
              (q.*a)[ka] = va;
              (q.*b)[kb] = vb;
              one(q);
            }
}

// offsets whose quotient does not fit 32 bits
static void large() {
  auto one = [](SizeType n, SizeType nb, SizeType tpb, int grid, int src, SizeType off, SizeType roff) {
    // the same layout with the offset reduced by whole periods
    const SizeType period = nb * tpb * grid;
    const SizeType shift = (off / period) * period;
    const P1 p{0, nb, tpb, grid, src, off - shift};
    const Dist1 D(p);
    for (int rank = 0; rank < grid; ++rank) {
      const Distribution d(GlobalElementSize(n, n), GlobalElementSize(nb * tpb, nb * tpb), TileElementSize(nb, nb), comm::Size2D(grid, grid),
                           comm::Index2D(rank, rank), comm::Index2D(src, src), GlobalElementIndex(off, roff));
      VP_CHECK(d.source_rank_index().row() == D.src, "n=%ld nb=%ld tpb=%ld grid=%d src=%d off=%ld: source rank %d, expected %d", n, nb, tpb,
               grid, src, off, d.source_rank_index().row(), D.src);
      VP_CHECK(d.offset().row() == D.off, "off=%ld", off);
      VP_CHECK(d.size().rows() == n, "n");
      const SizeType te = D.off % nb;
      VP_CHECK(d.nr_tiles().rows() == (n + te + nb - 1) / nb, "nr_tiles n=%ld nb=%ld", n, nb);
      // sub-distribution far away
      const SizeType o = n - 1;
      const Distribution s(d, {GlobalElementIndex(o, 0), GlobalElementSize(1, 1)});
      VP_CHECK(s.source_rank_index().row() == d.rank_global_element<Coord::Row>(o), "sub-distribution at %ld: source rank %d, owner %d", o,
               s.source_rank_index().row(), d.rank_global_element<Coord::Row>(o));
      ++vp::n_nontrivial;
    }
  };
  const SizeType G = SizeType(1) << 31;
  for (SizeType nb : {SizeType(1), SizeType(3), SizeType(256)})
    for (SizeType tpb : {1, 2})
      for (int grid : {1, 2, 3, 5})
        for (int src = 0; src < grid; ++src)
          for (SizeType off : {SizeType(0), G - 1, G, G + 1, 2 * G, 2 * G + 1, 3 * G + 2, 1000 * G + 7})
            for (SizeType n : {SizeType(1), G - 1, G, G + 1, 2 * G + 1, 7 * G + 3, 5000 * G + 11})
              one(n, nb, tpb, grid, src, off, 0);
  // totals over the ranks
  for (SizeType nb : {SizeType(1), SizeType(3), SizeType(256)})
    for (SizeType tpb : {1, 3})
      for (int grid : {1, 2, 3})
        for (SizeType off : {0, 1, 5})
          for (SizeType n : {G - 1, G, G + 1, 2 * G + 1, 5000 * G + 11}) {
            SizeType el = 0, tl = 0;
            for (int rank = 0; rank < grid; ++rank) {
              const Distribution d(GlobalElementSize(1, n), GlobalElementSize(nb * tpb, nb * tpb), TileElementSize(nb, nb), comm::Size2D(1, grid),
                                   comm::Index2D(0, rank), comm::Index2D(0, 0), GlobalElementIndex(0, off));
              el += d.local_size().cols();
              tl += d.local_nr_tiles().cols();
              if (d.local_nr_tiles().cols() > 0) {
                const SizeType l = d.local_size().cols() - 1;
                const SizeType g = d.global_element_from_local_element<Coord::Col>(l);
                VP_CHECK(d.local_element_from_global_element<Coord::Col>(g) == l, "round trip of the last local element %ld", l);
                VP_CHECK(d.rank_global_element<Coord::Col>(g) == rank, "owner of the last local element");
              }
              VP_CHECK(d.nr_tiles().cols() == (n + off % nb + nb - 1) / nb, "nr_tiles");
              if (rank == grid - 1)
                VP_CHECK(tl == d.nr_tiles().cols(), "sum of local tiles");
            }
            VP_CHECK(el == n, "sum of local sizes: %ld of %ld", el, n);
            ++vp::n_nontrivial;
          }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P02";
    s.rule = "every (size, tile size, tiles per block, grid size, source rank, offset) within the bounds along one coordinate, combined with "
             "differing parameters of the other coordinate, on every rank; all elements, tiles, tile pairs and ranks are compared with a walk over "
             "the elements; non-trivial: a distinct (parameters, rank, element)";
    const SizeType maxn = thorough ? 24 : 13;
    const SizeType maxnb = thorough ? 5 : 4;
    const SizeType maxtpb = thorough ? 4 : 3;
    const int maxgrid = thorough ? 4 : 3;
    const std::vector<P1> others = {{0, 1, 1, 1, 0, 0}, {5, 2, 2, 2, 1, 3}, {7, 3, 1, 3, 2, 4}, {1, 2, 1, 1, 0, 1}};
    for (SizeType nb = 1; nb <= maxnb; ++nb)
      for (SizeType tpb = 1; tpb <= maxtpb; ++tpb)
        for (int grid = 1; grid <= maxgrid; ++grid)
          for (int src = 0; src < grid; ++src)
            s.cases.push_back(vp::data_case(vp::fmt("nb=%ld tpb=%ld grid=%d src=%d", nb, tpb, grid, src), [=] {
              for (SizeType n = 0; n <= maxn; ++n)
                for (SizeType off = 0; off <= nb * tpb * (grid + 1); ++off) {
                  const P1 p{n, nb, tpb, grid, src, off};
                  for (std::size_t k = 0; k < others.size(); ++k) {
                    const bool full = (static_cast<std::size_t>(n + off) % others.size()) == k;
                    if (!full && k > 1)
                      continue;
                    check_pair(p, others[k], full, full);
                    if (full)
                      check_pair(others[k], p, true, false);
                  }
                }
            }));
    // all pairs of a smaller set
    std::vector<P1> ps;
    for (SizeType n : {0, 1, 4, 7})
      for (SizeType nb : {1, 2, 3})
        for (SizeType tpb : {1, 2})
          for (int grid : {1, 2})
            for (SizeType off : {0, 1, 5})
              ps.push_back({n, nb, tpb, grid, grid - 1, off});
    for (std::size_t i = 0; i < ps.size(); ++i)
      s.cases.push_back(vp::data_case("all pairs with " + str(ps[i]), [=] {
        for (auto& q : ps)
          check_pair(ps[i], q, true, thorough);
      }));
    s.cases.push_back(vp::data_case("equality", equality));
    s.cases.push_back(vp::data_case("refusals", refuse));
    s.cases.push_back(vp::data_case("beyond 32 bits", large));
    return s;
  });
}
