// P13: retiled matrices, sub-matrix references and views stand for exactly the right elements, in order.
#include "matrix_programs.hpp"

#include <dlaf/matrix/views.h>

#include "dist_ref.hpp"

using namespace dlaf;
using ref::Dist1;
using ref::P1;
using matrix::Distribution;
using matrix::Matrix;
namespace tt = pika::this_thread::experimental;

static std::string str(const P1& p) {
  return vp::fmt("{n=%ld nb=%ld tpb=%ld grid=%d src=%d off=%ld}", p.n, p.nb, p.tpb, p.grid, p.src, p.off);
}
static Distribution make(const P1& r, const P1& c, int rr, int rc) {
  return Distribution(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb * r.tpb, c.nb * c.tpb), TileElementSize(r.nb, c.nb), comm::Size2D(r.grid, c.grid), comm::Index2D(rr, rc),
                      comm::Index2D(r.src, c.src), GlobalElementIndex(r.off, c.off));
}

// addresses of the elements the rank owns
struct Map {
  std::vector<const double*> at;
  SizeType rows;
  const double*& operator()(SizeType i, SizeType j) {
    return at[std::size_t(i + j * rows)];
  }
};
template <class M>
static Map addresses(M& m, const Dist1& dr, const Dist1& dc, int rr, int rc) {
  Map a{std::vector<const double*>(std::size_t(dr.p.n * dc.p.n), nullptr), dr.p.n};
  for (std::size_t lj = 0; lj < dc.ltiles[std::size_t(rc)].size(); ++lj)
    for (std::size_t li = 0; li < dr.ltiles[std::size_t(rr)].size(); ++li) {
      const SizeType gi = dr.ltiles[std::size_t(rr)][li], gj = dc.ltiles[std::size_t(rc)][lj];
      auto w = tt::sync_wait(m.read(LocalTileIndex(SizeType(li), SizeType(lj))));
      auto& t = w.get();
      const auto ti = std::size_t(gi), tj = std::size_t(gj);
      VP_CHECK(t.size() == TileElementSize(dr.size[ti], dc.size[tj]), "tile (%ld,%ld) has size %ld x %ld", gi, gj, t.size().rows(), t.size().cols());
      for (SizeType j = 0; j < dc.size[tj]; ++j)
        for (SizeType i = 0; i < dr.size[ti]; ++i) {
          auto& x = a(dr.start[ti] + i, dc.start[tj] + j);
          VP_CHECK(!x, "element twice");
          x = t.ptr({i, j});
        }
    }
  return a;
}
template <class Tile>
static void check_tile(const Tile& t, Map& a, SizeType i0, SizeType j0, SizeType m, SizeType n) {
  VP_CHECK(t.size() == TileElementSize(m, n), "tile at (%ld,%ld) has size %ld x %ld instead of %ld x %ld", i0, j0, t.size().rows(), t.size().cols(), m, n);
  for (SizeType j = 0; j < n; ++j)
    for (SizeType i = 0; i < m; ++i) {
      ++vp::n_nontrivial;
      VP_CHECK(t.ptr({i, j}) == a(i0 + i, j0 + j), "the view has element (%ld,%ld) elsewhere", i0 + i, j0 + j);
    }
}
template <class M>
struct writable : std::false_type {};
template <>
struct writable<Matrix<double, Device::CPU>> : std::true_type {};
template <>
struct writable<matrix::internal::MatrixRef<double, Device::CPU>> : std::true_type {};

// every tile the rank owns of a matrix with the distribution (dr, dc) that starts at (oi, oj) of the addressed one
template <class M>
static void check_matrix(M& m, const Dist1& dr, const Dist1& dc, int rr, int rc, Map& a, SizeType oi, SizeType oj, bool global, bool rw) {
  VP_CHECK(m.size() == GlobalElementSize(dr.p.n, dc.p.n), "size");
  VP_CHECK(m.distribution().localNrTiles() == LocalTileSize(dr.local_nt(rr), dc.local_nt(rc)), "%ld x %ld local tiles", m.distribution().localNrTiles().rows(), m.distribution().localNrTiles().cols());
  for (SizeType lj = 0; lj < dc.local_nt(rc); ++lj)
    for (SizeType li = 0; li < dr.local_nt(rr); ++li) {
      const SizeType gi = dr.ltiles[std::size_t(rr)][std::size_t(li)], gj = dc.ltiles[std::size_t(rc)][std::size_t(lj)];
      const auto ti = std::size_t(gi), tj = std::size_t(gj);
      auto look = [&](auto& t) { check_tile(t, a, oi + dr.start[ti], oj + dc.start[tj], dr.size[ti], dc.size[tj]); };
      if (rw) {
        if constexpr (writable<M>::value) {
          auto t = global ? tt::sync_wait(m.readwrite(GlobalTileIndex(gi, gj))) : tt::sync_wait(m.readwrite(LocalTileIndex(li, lj)));
          look(t);
          continue;
        }
      }
      auto w = global ? tt::sync_wait(m.read(GlobalTileIndex(gi, gj))) : tt::sync_wait(m.read(LocalTileIndex(li, lj)));
      look(w.get());
    }
}

static const std::vector<P1> others() {
  return {{5, 2, 1, 2, 1, 0}, {3, 3, 1, 1, 0, 0}, {4, 1, 1, 3, 2, 0}};
}

static void geometry(SizeType nb, int grid, SizeType maxn) {
  vp::ranks(1, 1, [&](int) {
    for (int src = 0; src < grid; ++src)
      for (SizeType n = 0; n <= maxn; ++n)
        for (bool swap : {false, true}) {
          const P1 p{n, nb, 1, grid, src, 0}, q = others()[std::size_t(n + src) % 3];
          const P1 &r = swap ? q : p, &c = swap ? p : q;
          const Dist1 dr(r), dc(c);
          for (int rr = 0; rr < r.grid; ++rr)
            for (int rc = 0; rc < c.grid; ++rc) {
              vp::context(str(r) + str(c) + vp::fmt(" rank (%d,%d)", rr, rc));
              Matrix<double, Device::CPU> m(make(r, c, rr, rc));
              Map a = addresses(m, dr, dc, rr, rc);
              check_matrix(m, dr, dc, rr, rc, a, 0, 0, true, true);
              {
                auto s = m.sub_pipeline();
                check_matrix(s, dr, dc, rr, rc, a, 0, 0, false, true);
                VP_CHECK(s.distribution() == m.distribution(), "distribution of the sub-pipeline");
              }
              {
                auto s = m.sub_pipeline_const();
                check_matrix(s, dr, dc, rr, rc, a, 0, 0, true, false);
              }
              // all divisors
              for (SizeType tr = 1; tr <= r.nb; ++tr)
                for (SizeType tc = 1; tc <= c.nb; ++tc) {
                  if (r.nb % tr || c.nb % tc)
                    continue;
                  vp::context(str(r) + str(c) + vp::fmt(" rank (%d,%d) tiles per block (%ld,%ld)", rr, rc, tr, tc));
                  P1 r2 = r, c2 = c;
                  r2.nb /= tr, r2.tpb = tr, c2.nb /= tc, c2.tpb = tc;
                  const Dist1 er(r2), ec(c2);
                  {
                    auto s = m.retiled_sub_pipeline({tr, tc});
                    VP_CHECK(s.distribution() == make(r2, c2, rr, rc), "distribution of the retiled matrix");
                    check_matrix(s, er, ec, rr, rc, a, 0, 0, (tr + tc) % 2, true);
                    check_matrix(s, er, ec, rr, rc, a, 0, 0, (tr + tc) % 2 == 0, false);
                  }
                  {
                    auto s = m.retiled_sub_pipeline_const({tr, tc});
                    check_matrix(s, er, ec, rr, rc, a, 0, 0, (tr + tc) % 2, false);
                  }
                  // of a reference to the leading part
                  for (SizeType k = 0; k <= std::max(r.n, c.n); ++k) {
                    const SizeType kr = std::min(k, r.n), kc = std::min(k, c.n);
                    r2.n = kr, c2.n = kc;
                    const Dist1 fr(r2), fc(c2);
                    if (k % 2) {
                      matrix::internal::MatrixRef<double, Device::CPU> ref(m, {{0, 0}, {kr, kc}});
                      auto s = ref.retiled_sub_pipeline({tr, tc});
                      check_matrix(s, fr, fc, rr, rc, a, 0, 0, false, true);
                    }
                    else {
                      matrix::internal::MatrixRef<const double, Device::CPU> ref(m, {{0, 0}, {kr, kc}});
                      auto s = ref.retiled_sub_pipeline_const({tr, tc});
                      check_matrix(s, fr, fc, rr, rc, a, 0, 0, true, false);
                    }
                  }
                  check_matrix(m, dr, dc, rr, rc, a, 0, 0, false, true);
                }
              m.wait_local_tiles();
            }
        }
  });
}

// Every origin and extent of references, also of matrices with several tiles per block
static void references(SizeType nb, SizeType tpb, int grid, SizeType maxn) {
  vp::ranks(1, 1, [&](int) {
    for (int src = 0; src < grid; ++src)
      for (SizeType n = 1; n <= maxn; ++n)
        for (bool swap : {false, true}) {
          const P1 p{n, nb, tpb, grid, src, 0}, q = others()[std::size_t(n + src) % 3];
          const P1 &r = swap ? q : p, &c = swap ? p : q;
          const Dist1 dr(r), dc(c);
          for (int rr = 0; rr < r.grid; ++rr)
            for (int rc = 0; rc < c.grid; ++rc) {
              Matrix<double, Device::CPU> m(make(r, c, rr, rc));
              Map a = addresses(m, dr, dc, rr, rc);
              {
                matrix::internal::MatrixRef<double, Device::CPU> f(m);
                check_matrix(f, dr, dc, rr, rc, a, 0, 0, true, true);
                VP_CHECK(f.distribution() == m.distribution(), "reference to the whole");
                Matrix<const double, Device::CPU>& mc = m;
                matrix::internal::MatrixRef<const double, Device::CPU> g(mc);
                check_matrix(g, dr, dc, rr, rc, a, 0, 0, true, false);
                VP_CHECK(g.distribution() == m.distribution() && g.allocation_layout() == m.allocation_layout(), "reference to the whole");
              }
              for (SizeType o = 0; o < n; ++o)
                for (SizeType k = 0; k <= n - o; ++k) {
                  const SizeType oq = (o + 2 * k) % q.n, kq = (k + o) % (q.n - oq + 1);
                  P1 r2 = r, c2 = c;
                  (swap ? c2 : r2).n = k, (swap ? c2 : r2).off = o;
                  (swap ? r2 : c2).n = kq, (swap ? r2 : c2).off = oq;
                  vp::context(str(r) + str(c) + vp::fmt(" rank (%d,%d) from (%ld,%ld) size (%ld,%ld)", rr, rc, r2.off, c2.off, r2.n, c2.n));
                  const Dist1 er(r2), ec(c2);
                  const matrix::internal::SubMatrixSpec spec{{r2.off, c2.off}, {r2.n, c2.n}};
                  matrix::internal::MatrixRef<double, Device::CPU> f(m, spec);
                  check_matrix(f, er, ec, rr, rc, a, r2.off, c2.off, o % 2, true);
                  check_matrix(f, er, ec, rr, rc, a, r2.off, c2.off, k % 2, false);
                  matrix::internal::MatrixRef<const double, Device::CPU> g(m, spec);
                  check_matrix(g, er, ec, rr, rc, a, r2.off, c2.off, n % 2, false);
                }
            }
        }
  });
}

// Views list exactly the tiles of the rank with a part in the view, with that part.
static void views(SizeType nb, SizeType tpb, int grid, SizeType off, SizeType maxn) {
  const std::vector<P1> qs = {{5, 2, 2, 2, 1, 3}, {4, 3, 1, 1, 0, 1}, {4, 1, 3, 2, 0, 1}, {6, 3, 1, 2, 1, 0}};
  for (int src = 0; src < grid; ++src)
    for (SizeType n = 0; n <= maxn; ++n)
      for (const P1& q : qs)
        for (bool swap : {false, true}) {
          const P1 p{n, nb, tpb, grid, src, off};
          const P1 &r = swap ? q : p, &c = swap ? p : q;
          const Dist1 dr(r), dc(c);
          for (int rr = 0; rr < r.grid; ++rr)
            for (int rc = 0; rc < c.grid; ++rc) {
              const Distribution d = make(r, c, rr, rc);
              if (n == 0) {
                matrix::SubMatrixView v(d, {0, 0});
                for ([[maybe_unused]] auto ij : v.iteratorLocal())
                  VP_CHECK(false, "view of an empty matrix");
                continue;
              }
              for (SizeType oi = 0; oi < r.n; ++oi)
                for (SizeType oj = 0; oj < c.n; ++oj) {
                  vp::context(str(r) + str(c) + vp::fmt(" rank (%d,%d) view from (%ld,%ld)", rr, rc, oi, oj));
                  // one coordinate of the part of a tile from an offset up to an end
                  struct Part {
                    SizeType local, first, size;
                  };
                  auto parts = [](const Dist1& x, int rank, SizeType from, SizeType to) {
                    std::vector<Part> v;
                    const auto& lt = x.ltiles[std::size_t(rank)];
                    for (std::size_t l = 0; l < lt.size(); ++l) {
                      const auto t = std::size_t(lt[l]);
                      const SizeType b = std::max(x.start[t], from), e = std::min(x.start[t] + x.size[t], to);
                      if (b < e)
                        v.push_back({SizeType(l), b - x.start[t], e - b});
                    }
                    return v;
                  };
                  auto compare = [](auto& view, const std::vector<Part>& pr, const std::vector<Part>& pc) {
                    std::size_t k = 0;
                    for (auto ij : view.iteratorLocal()) {
                      VP_CHECK(k < pr.size() * pc.size(), "the view lists the tile (%ld,%ld) it has no part in", ij.row(), ij.col());
                      const Part &x = pr[k % pr.size()], &y = pc[k / pr.size()];
                      ++k;
                      ++vp::n_nontrivial;
                      VP_CHECK(ij == LocalTileIndex(x.local, y.local), "the view lists the tile (%ld,%ld) instead of (%ld,%ld)", ij.row(), ij.col(), x.local, y.local);
                      const auto s = view(ij);
                      VP_CHECK(s.origin == TileElementIndex(x.first, y.first) && s.size == TileElementSize(x.size, y.size),
                               "tile (%ld,%ld): the view has the part from (%ld,%ld) of size (%ld,%ld) instead of (%ld,%ld), (%ld,%ld)", ij.row(), ij.col(), s.origin.row(), s.origin.col(), s.size.rows(),
                               s.size.cols(), x.first, y.first, x.size, y.size);
                    }
                    VP_CHECK(k == pr.size() * pc.size(), "the view lists %zu tiles instead of %zu", k, pr.size() * pc.size());
                  };
                  const auto pr = parts(dr, rr, oi, r.n);
                  {
                    matrix::SubMatrixView v(d, {oi, oj});
                    VP_CHECK(v.offsetElement() == GlobalElementIndex(oi, oj), "offset");
                    VP_CHECK(v.offset() == GlobalTileIndex(dr.tile[std::size_t(oi)], dc.tile[std::size_t(oj)]), "tile of the offset");
                    VP_CHECK(v.begin() == LocalTileIndex(dr.local_before(rr, dr.tile[std::size_t(oi)]), dc.local_before(rc, dc.tile[std::size_t(oj)])), "first tile");
                    compare(v, pr, parts(dc, rc, oj, c.n));
                  }
                  // panels are for the ranks of their column and one tile wide
                  const SizeType in_tile = dc.el[std::size_t(oj)] + (dc.tile[std::size_t(oj)] == 0 ? c.off % c.nb : 0);
                  for (SizeType w = 1; in_tile + w <= c.nb; ++w) {
                    matrix::SubPanelView v(d, {oi, oj}, w);
                    VP_CHECK(v.cols() == w && v.offsetElement() == GlobalElementIndex(oi, oj), "offset and columns");
                    if (dc.owner[std::size_t(oj)] == rc)
                      compare(v, pr, parts(dc, rc, oj, std::min(oj + w, c.n)));
                  }
                }
            }
        }
}

int main(int argc, char** argv) {
  using namespace mp;
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P13";
    s.rule = "geometry: all retilings, sub-matrix references and views of all distributions within the bounds, on every rank; order: all programs of accesses through matrices, "
             "sub-pipelines, retiled matrices and references up to the depth under all schedules within the bounds; non-trivial: a distinct element or view tile, or a complete program";
    const SizeType maxn = thorough ? 13 : 7;
    for (SizeType nb : {1, 2, 3, 4, 6})
      for (int grid = 1; grid <= 3; ++grid)
        s.cases.push_back(vp::sched_case(vp::fmt("retiled nb=%ld grid=%d", nb, grid), [=] { geometry(nb, grid, std::max(maxn, nb + 1)); }, 0, 1u << vp::FIFO, false, false));
    for (SizeType nb : {1, 2, 3})
      for (SizeType tpb : {1, 2})
        for (int grid = 1; grid <= 3; ++grid) {
          s.cases.push_back(vp::sched_case(vp::fmt("references nb=%ld tpb=%ld grid=%d", nb, tpb, grid), [=] { references(nb, tpb, grid, maxn); }, 0, 1u << vp::FIFO, false, false));
          for (SizeType off = 0; off <= nb * tpb; ++off)
            s.cases.push_back(vp::data_case(vp::fmt("views nb=%ld tpb=%ld grid=%d off=%ld", nb, tpb, grid, off), [=] { views(nb, tpb, grid, off, maxn); }));
        }

    constexpr unsigned long rw = ops(READ, WRITE), rt = ops(RETILE, RETILE_CONST), rf = ops(REF_READ, REF_WRITE), sub = ops(SUB, SUB_CONST), hold = ops(HOLD_READ, HOLD_WRITE, ATTACH, RELEASE);
    auto add = [&](const char* what, int depth, int nslots, unsigned long o, int dev, unsigned policies, bool hb = false) {
      auto c = vp::sched_case(vp::fmt("%s, %d steps, %d matrices", what, depth, nslots), [=] { programs(depth, nslots, o); }, dev, policies, false, hb);
      c.split = 36;
      s.cases.push_back(c);
    };
    using vp::ALL_POLICIES;
    using vp::BASIC_POLICIES;
    for (int d = 1; d <= 2; ++d)
      add("views and references", d, 3, rw | rt | rf | sub | hold | ops(READ_DROP, WRITE_DROP, MOVE, DESTROY, WAIT, DONE, SHARE, READ_SUB, WRITE_SUB), thorough ? 2 : 1, ALL_POLICIES, true);
    add("retiled", 3, 2, rw | rt | ops(WAIT, DESTROY, WRITE_DROP), thorough ? 2 : 1, BASIC_POLICIES);
    add("retiled sub-pipelines", 3, 3, rw | rt | sub | ops(DESTROY, DONE, MOVE), thorough ? 1 : 0, BASIC_POLICIES);
    add("references", 3, 2, rw | rf | ops(SUB, WAIT), thorough ? 2 : 1, BASIC_POLICIES);
    add("references and retiled", 4, 2, ops(WRITE, RETILE, REF_READ, REF_WRITE, DESTROY), thorough ? 1 : 0, BASIC_POLICIES);
    if (thorough) {
      add("retiled", 4, 3, ops(READ, WRITE, RETILE, DESTROY), 1, ALL_POLICIES);
      add("held", 4, 2, rw | hold | ops(RETILE, REF_WRITE), 0, BASIC_POLICIES);
    }
    return s;
  });
}
