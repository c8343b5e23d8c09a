// P03: sub-distributions against the parent, element by element.
#include <dlaf/matrix/distribution.h>
#include <dlaf/matrix/distribution_extensions.h>

#include "dist_ref.hpp"
#include "pure.hpp"

using namespace dlaf;
using dlaf::matrix::Distribution;
using dlaf::matrix::SubDistributionSpec;
using ref::P1;
namespace ext = dlaf::matrix::internal::distribution;

static std::string str(const P1& p) {
  return vp::fmt("{n=%ld nb=%ld tpb=%ld grid=%d src=%d off=%ld}", p.n, p.nb, p.tpb, p.grid, p.src, p.off);
}

// position of an element inside the storage of its rank, along one coordinate: (rank, block of the rank, position in the
// block) in the unbounded block-cyclic storage the parent lives in
struct Place {
  int rank;
  SizeType block, pos;
  bool operator==(const Place& o) const {
    return rank == o.rank && block == o.block && pos == o.pos;
  }
};
static Place place(const P1& p, SizeType e) {
  const SizeType x = p.off + e, bs = p.nb * p.tpb;
  return {static_cast<int>((x / bs + p.src) % p.grid), x / bs / p.grid, x % bs};
}

template <Coord rc>
static void check_1d(const P1& p, const Distribution& par, const Distribution& sub, SizeType o, SizeType m) {
  VP_CHECK(sub.size().get<rc>() == m, "size %ld, expected %ld", sub.size().get<rc>(), m);
  VP_CHECK(sub.grid_size() == par.grid_size() && sub.rank_index() == par.rank_index() && sub.tile_size() == par.tile_size() &&
               sub.block_size() == par.block_size(),
           "grid, rank, tile and block size");
  VP_CHECK(0 <= sub.offset().get<rc>() && sub.offset().get<rc>() < sub.block_size().get<rc>(), "normalized offset");
  const int rank = par.rank_index().get<rc>();
  SizeType local = 0;
  for (SizeType i = 0; i < m; ++i) {
    ++vp::n_nontrivial;
    const Place pl = place(p, o + i);
    VP_CHECK(sub.rank_global_element<rc>(i) == pl.rank, "element %ld: rank %d, parent element on %d", i, sub.rank_global_element<rc>(i), pl.rank);
    VP_CHECK(par.rank_global_element<rc>(o + i) == pl.rank, "parent element %ld on rank %d, expected %d", o + i, par.rank_global_element<rc>(o + i), pl.rank);
    const SizeType bs = p.nb * p.tpb;
    VP_CHECK((sub.offset().get<rc>() + i) % bs == pl.pos, "element %ld: position in the block %ld, parent position %ld", i,
             (sub.offset().get<rc>() + i) % bs, pl.pos);
    // position inside the tile as stored in the parent
    const SizeType ts = sub.global_tile_from_global_element<rc>(i);
    const SizeType tp = par.global_tile_from_global_element<rc>(o + i);
    const SizeType t0 = par.global_tile_from_global_element<rc>(o);
    VP_CHECK(tp == t0 + ts, "element %ld: tile %ld of the sub-distribution is tile %ld of the parent, expected %ld", i, ts, tp, t0 + ts);
    const SizeType es = sub.tile_element_from_global_element<rc>(i), ep = par.tile_element_from_global_element<rc>(o + i);
    const SizeType shift = ts == 0 ? par.tile_element_from_global_element<rc>(o) : 0;
    VP_CHECK(ep == es + shift, "element %ld: in-tile index %ld of the sub-distribution is %ld of the parent", i, es, ep);
    if (pl.rank == rank) {
      VP_CHECK(sub.local_element_from_global_element<rc>(i) == local, "element %ld: local index %ld, expected %ld", i,
               sub.local_element_from_global_element<rc>(i), local);
      ++local;
    }
    else
      VP_CHECK(sub.local_element_from_global_element<rc>(i) == -1, "element %ld: not local", i);
  }
  VP_CHECK(sub.local_size().get<rc>() == local, "local size %ld, expected %ld", sub.local_size().get<rc>(), local);
  if (m > 0)
    VP_CHECK(sub.nr_tiles().get<rc>() == par.global_tile_from_global_element<rc>(o + m - 1) - par.global_tile_from_global_element<rc>(o) + 1,
             "number of tiles %ld", sub.nr_tiles().get<rc>());
  else
    VP_CHECK(sub.nr_tiles().get<rc>() == 0 && sub.local_nr_tiles().get<rc>() == 0, "no tiles");
}

static Distribution make(const P1& r, const P1& c, int rr, int rc) {
  return Distribution(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb * r.tpb, c.nb * c.tpb), TileElementSize(r.nb, c.nb),
                      comm::Size2D(r.grid, c.grid), comm::Index2D(rr, rc), comm::Index2D(r.src, c.src),
                      GlobalElementIndex(r.off, c.off));
}

static void check_helpers(const Distribution& d, const GlobalElementIndex& o, const Distribution& s) {
  if (!o.isIn(d.size()))
    return;
  VP_CHECK(ext::is_compatible_sub_distribution(d, o, s), "is_compatible_sub_distribution");
  for (SizeType j = 0; j < s.nr_tiles().cols(); ++j)
    for (SizeType i = 0; i < s.nr_tiles().rows(); ++i) {
      const GlobalTileIndex ij(i, j);
      const GlobalElementIndex first = s.global_element_index(ij, {0, 0});
      const GlobalElementIndex in_par(first.row() + o.row(), first.col() + o.col());
      VP_CHECK(ext::global_tile_index_from_sub_distribution(d, o, s, ij) == d.global_tile_index(in_par), "tile of the parent");
      VP_CHECK(ext::tile_element_offset_from_sub_distribution(d, o, s, ij) == d.tile_element_index(in_par), "offset in the tile of the parent");
      VP_CHECK(d.globalTileIndexFromSubDistribution(o, s, ij) == d.global_tile_index(in_par), "tile of the parent");
      VP_CHECK(d.tileElementOffsetFromSubDistribution(o, s, ij) == d.tile_element_index(in_par), "offset in the tile of the parent");
    }
}

static void check_pair(const P1& r, const P1& c, bool nested) {
  for (int rr = 0; rr < r.grid; ++rr)
    for (int rc = 0; rc < c.grid; ++rc) {
      const Distribution d = make(r, c, rr, rc);
      VP_CHECK(Distribution(d, {GlobalElementIndex(0, 0), d.size()}) == d, "the whole range");
      for (SizeType o = 0; o <= r.n; ++o)
        for (SizeType m = 0; m <= r.n - o; ++m) {
          // the range along the other coordinate varies with it
          const SizeType oc = (o + 2 * m) % (c.n + 1), mc = (m + o) % (c.n - oc + 1);
          vp::context(str(r) + str(c) + vp::fmt(" rank=(%d,%d) origin=(%ld,%ld) size=(%ld,%ld)", rr, rc, o, oc, m, mc));
          const GlobalElementIndex org(o, oc);
          const Distribution s(d, SubDistributionSpec{org, GlobalElementSize(m, mc)});
          check_1d<Coord::Row>(r, d, s, o, m);
          check_1d<Coord::Col>(c, d, s, oc, mc);
          check_helpers(d, org, s);
          if (nested)
            for (SizeType o2 = 0; o2 <= m; ++o2)
              for (SizeType m2 = 0; m2 <= m - o2; ++m2) {
                const SizeType oc2 = (o2 + m2) % (mc + 1), mc2 = (m2 + 1) % (mc - oc2 + 1);
                const Distribution a(s, SubDistributionSpec{GlobalElementIndex(o2, oc2), GlobalElementSize(m2, mc2)});
                const Distribution b(d, SubDistributionSpec{GlobalElementIndex(o + o2, oc + oc2), GlobalElementSize(m2, mc2)});
                VP_CHECK(a == b, "sub-distribution of a sub-distribution at %ld size %ld", o2, m2);
              }
        }
    }
}

// ranges outside of the parent are refused
static void refuse() {
  for (SizeType n : {0, 1, 5})
    for (SizeType o = -2; o <= n + 2; ++o)
      for (SizeType m = -2; m <= n + 2; ++m)
        for (bool row : {true, false}) {
          const P1 p{n, 2, 1, 2, 1, 1}, q{4, 3, 1, 1, 0, 0};
          const Distribution d = row ? make(p, q, 0, 0) : make(q, p, 0, 0);
          const SubDistributionSpec sp{row ? GlobalElementIndex(o, 1) : GlobalElementIndex(1, o), row ? GlobalElementSize(m, 2) : GlobalElementSize(2, m)};
          const bool ok = o >= 0 && m >= 0 && o + m <= n;
          const bool died = vp::dies([&] { Distribution s(d, sp); });
          VP_CHECK(died == !ok, "origin %ld size %ld of %ld: %s", o, m, n, died ? "refused" : "accepted");
        }
}

// the check that one distribution is a part of another
static void compatible() {
  struct Q {
    P1 p;
    int rank;
  };
  std::vector<Q> qs;
  for (SizeType n : {1, 3, 4})
    for (SizeType nb : {1, 2})
      for (SizeType tpb : {1, 2})
        for (int grid : {1, 2})
          for (int src = 0; src < grid; ++src)
            for (int rank = 0; rank < grid; ++rank)
              for (SizeType off : {0, 1})
                qs.push_back({{n, nb, tpb, grid, src, off}, rank});
  const Q fixed{{3, 2, 1, 2, 1, 1}, 0};
  for (bool row : {true, false})
    for (const Q& a : qs)
      for (const Q& b : qs) {
        const Distribution d = row ? make(a.p, fixed.p, a.rank, fixed.rank) : make(fixed.p, a.p, fixed.rank, a.rank);
        for (SizeType o = 0; o < a.p.n; ++o)
          for (int other = 0; other < 5; ++other) {
            // along the other coordinate: the same distribution, or one that differs
            Q q = fixed;
            SizeType oo = 1;
            if (other == 1)
              oo = 2;
            if (other == 2)
              q.p.n = 1, oo = 2, q.p.src = 0;
            if (other == 3)
              q.rank = 1;
            if (other == 4)
              q.p.nb = 1, q.p.tpb = 2;
            const Distribution s = row ? make(b.p, q.p, b.rank, q.rank) : make(q.p, b.p, q.rank, b.rank);
            const GlobalElementIndex org = row ? GlobalElementIndex(o, oo) : GlobalElementIndex(oo, o);
            auto fits = [](const Q& x, const Q& y, SizeType at) {
              return x.p.nb == y.p.nb && x.p.tpb == y.p.tpb && x.p.grid == y.p.grid && x.rank == y.rank && y.p.src == place(x.p, at).rank && at + y.p.n <= x.p.n;
            };
            // (what a distribution has are normalized offsets and source ranks)
            auto norm = [](Q x) {
              const SizeType bs = x.p.nb * x.p.tpb;
              x.p.src = int((x.p.src + x.p.off / bs) % x.p.grid);
              x.p.off %= bs;
              return x;
            };
            const bool ok = fits(norm(a), norm(b), o) && fits(norm(fixed), norm(q), oo);
            ++vp::n_nontrivial;
            VP_CHECK(ext::is_compatible_sub_distribution(d, org, s) == ok, "%s rank %d at %ld: %s rank %d, other %d: %s", str(a.p).c_str(), a.rank, o, str(b.p).c_str(), b.rank, other, ok ? "not compatible" : "compatible");
          }
      }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P03";
    s.rule = "every origin and size of every parent distribution within the bounds, on every rank, and every sub-range of every sub-range for the "
             "smaller ones; non-trivial: a distinct (parent, range, element)";
    const SizeType maxn = thorough ? 15 : 10, maxnb = thorough ? 4 : 3, maxtpb = thorough ? 3 : 2;
    const int maxgrid = 3;
    const std::vector<P1> others = {{5, 2, 2, 2, 1, 3}, {7, 3, 1, 3, 2, 4}, {4, 1, 3, 2, 0, 1}};
    for (SizeType nb = 1; nb <= maxnb; ++nb)
      for (SizeType tpb = 1; tpb <= maxtpb; ++tpb)
        for (int grid = 1; grid <= maxgrid; ++grid)
          for (SizeType off = 0; off <= nb * tpb + 1; ++off)
            s.cases.push_back(vp::data_case(vp::fmt("nb=%ld tpb=%ld grid=%d off=%ld", nb, tpb, grid, off), [=] {
              for (int src = 0; src < grid; ++src)
                for (SizeType n = 0; n <= maxn; ++n) {
                  const P1 p{n, nb, tpb, grid, src, off};
                  const P1& q = others[static_cast<std::size_t>(n + src) % others.size()];
                  check_pair(p, q, n <= (thorough ? 9 : 6));
                  if (n <= 6)
                    check_pair(q, p, false);
                }
            }));
    s.cases.push_back(vp::data_case("ranges outside", refuse));
    s.cases.push_back(vp::data_case("compatible distributions", compatible));
    return s;
  });
}
