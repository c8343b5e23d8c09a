// P15: every tile is stored in bounds, without overlap, as its allocation layout says.
#include <cstring>
#include <map>

#include <pika/execution.hpp>
#include <pika/runtime.hpp>

#include <dlaf/matrix/check_allocation.h>
#include <dlaf/matrix/create_matrix.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/matrix/tile.h>

#include "dist_ref.hpp"
#include "sched.hpp"

using namespace dlaf;
using namespace dlaf::matrix;
using ref::Dist1;
using ref::P1;
namespace tt = pika::this_thread::experimental;

static std::string str(const P1& p) {
  return vp::fmt("{n=%ld nb=%ld tpb=%ld grid=%d src=%d}", p.n, p.nb, p.tpb, p.grid, p.src);
}
static Distribution make(const P1& r, const P1& c, int rr, int rc) {
  return Distribution(GlobalElementSize(r.n, c.n), GlobalElementSize(r.nb * r.tpb, c.nb * c.tpb), TileElementSize(r.nb, c.nb), comm::Size2D(r.grid, c.grid), comm::Index2D(rr, rc),
                      comm::Index2D(r.src, c.src), GlobalElementIndex(r.off, c.off));
}

// Where the local elements are stored
template <class T>
struct Stored {
  SizeType m = 0, n = 0;
  std::vector<T*> at;            // by local element
  std::vector<SizeType> ld, bi, bj, ti, tj;  // per local element: leading dimension and first element of its tile, block and tile number
  std::size_t idx(SizeType i, SizeType j) const {
    return std::size_t(i + j * m);
  }
};
template <class T, class M>
static Stored<T> stored(M& mat, const Dist1& dr, const Dist1& dc, int rr, int rc) {
  Stored<T> s;
  s.m = dr.local_n(rr), s.n = dc.local_n(rc);
  s.at.assign(std::size_t(s.m * s.n), nullptr);
  for (auto* v : {&s.ld, &s.bi, &s.bj, &s.ti, &s.tj})
    v->assign(s.at.size(), -1);
  VP_CHECK(mat.distribution().local_size() == LocalElementSize(s.m, s.n), "local size");
  std::map<const T*, bool> seen;
  SizeType j0 = 0;
  for (std::size_t lj = 0; lj < dc.ltiles[std::size_t(rc)].size(); ++lj) {
    const auto gj = std::size_t(dc.ltiles[std::size_t(rc)][lj]);
    SizeType i0 = 0;
    for (std::size_t li = 0; li < dr.ltiles[std::size_t(rr)].size(); ++li) {
      const auto gi = std::size_t(dr.ltiles[std::size_t(rr)][li]);
      auto w = tt::sync_wait(mat.read(LocalTileIndex(SizeType(li), SizeType(lj))));
      const auto& t = w.get();
      const SizeType m = dr.size[gi], n = dc.size[gj];
      VP_CHECK(t.size() == TileElementSize(m, n), "tile (%zu,%zu) is %ld x %ld instead of %ld x %ld", gi, gj, t.size().rows(), t.size().cols(), m, n);
      VP_CHECK(t.ld() >= m && t.ld() >= 1, "leading dimension %ld of %ld rows", t.ld(), m);
      for (SizeType j = 0; j < n; ++j)
        for (SizeType i = 0; i < m; ++i) {
          ++vp::n_nontrivial;
          T* p = const_cast<T*>(t.ptr()) + i + j * t.ld();
          VP_CHECK(t.ptr({i, j}) == p, "element (%ld,%ld) of a tile is not stored in column-major order", i, j);
          const bool fresh = seen.emplace(p, true).second;
          VP_CHECK(fresh, "two elements at the same place");
          const auto k = s.idx(i0 + i, j0 + j);
          s.at[k] = p;
          s.ld[k] = t.ld();
          s.bi[k] = dr.tblock[gi], s.bj[k] = dc.tblock[gj];
          s.ti[k] = SizeType(gi), s.tj[k] = SizeType(gj);
        }
      i0 += m;
    }
    j0 += dc.size[gj];
  }
  return s;
}

enum class LdKind { Default, Compact, Padded, Exact };

// the part of the layout that contains element (i,j) starts and ends where?
template <class T>
static void check_layout(const Stored<T>& s, AllocationLayout layout, LdKind kind, SizeType exact, bool pool) {
  for (SizeType j = 0; j < s.n; ++j)
    for (SizeType i = 0; i < s.m; ++i) {
      const auto k = s.idx(i, j);
      if (pool)
        VP_CHECK(vp::pool_contains(s.at[k], sizeof(T)), "element (%ld,%ld) is stored outside of the allocations", i, j);
      // first element and extent of the unit of storage of the layout
      SizeType fi = i, fj = j, e = i;
      auto same_r = [&](SizeType a, SizeType b) {
        const auto x = s.idx(a, j), y = s.idx(b, j);
        return layout == AllocationLayout::ColMajor || (layout == AllocationLayout::Blocks ? s.bi[x] == s.bi[y] : s.ti[x] == s.ti[y]);
      };
      auto same_c = [&](SizeType a, SizeType b) {
        const auto x = s.idx(i, a), y = s.idx(i, b);
        return layout == AllocationLayout::ColMajor || (layout == AllocationLayout::Blocks ? s.bj[x] == s.bj[y] : s.tj[x] == s.tj[y]);
      };
      while (fi > 0 && same_r(fi - 1, i))
        --fi;
      while (fj > 0 && same_c(fj - 1, j))
        --fj;
      while (e + 1 < s.m && same_r(e + 1, i))
        ++e;
      // "padded" may be anything that fits, the same for the whole unit
      const SizeType ld = kind == LdKind::Compact ? e - fi + 1 : kind == LdKind::Exact ? exact : s.ld[s.idx(fi, fj)];
      VP_CHECK(s.ld[k] == ld && ld >= e - fi + 1, "element (%ld,%ld): leading dimension %ld instead of %ld", i, j, s.ld[k], ld);
      VP_CHECK(s.at[k] == s.at[s.idx(fi, fj)] + (i - fi) + (j - fj) * ld, "element (%ld,%ld) is not where the layout puts it", i, j);
    }
}

template <class T>
static void allocation(SizeType nb, SizeType tpb, int grid, SizeType maxn) {
  const std::vector<P1> qs = {{5, 2, 2, 2, 1, 0}, {9, 4, 1, 1, 0, 0}, {7, 1, 3, 2, 0, 0}, {0, 2, 1, 1, 0, 0}, {3, 3, 1, 2, 1, 0}};
  vp::ranks(1, 1, [&](int) {
    for (int src = 0; src < grid; ++src)
      for (SizeType n = 0; n <= maxn; ++n)
        for (std::size_t qi = 0; qi < qs.size(); ++qi) {
          const P1 p{n, nb, tpb, grid, src, 0};
          const P1& q = qs[qi];
          if (qi != std::size_t(n + src) % qs.size() && n > 3)
            continue;
          for (bool swap : {false, true}) {
            const P1 &r = swap ? q : p, &c = swap ? p : q;
            const Dist1 dr(r), dc(c);
            for (int rr = 0; rr < r.grid; ++rr)
              for (int rc = 0; rc < c.grid; ++rc) {
                const Distribution d = make(r, c, rr, rc);
                const SizeType lm = dr.local_n(rr);
                const std::string where = str(r) + str(c) + vp::fmt(" rank (%d,%d)", rr, rc);
                for (int l = 0; l < 4; ++l)
                  for (LdKind kind : {LdKind::Default, LdKind::Compact, LdKind::Padded, LdKind::Exact}) {
                    AllocationLayout layout = l < 3 ? AllocationLayout(l) : AllocationLayout(int(n + src) % 3);
                    getTuneParameters().default_allocation_layout = l < 3 ? AllocationLayout((l + 1) % 3) : layout;
                    // the largest unit of storage along the rows
                    SizeType unit = lm;
                    if (layout != AllocationLayout::ColMajor)
                      unit = std::min(lm, layout == AllocationLayout::Blocks ? r.nb * r.tpb : r.nb);
                    const SizeType exact = std::max<SizeType>(1, unit) + SizeType(l) + n % 3;
                    AllocationSpec spec;
                    if (l < 3)
                      spec.set_layout(layout);
                    LdKind eff = kind;
                    if (kind == LdKind::Default)
                      eff = layout == AllocationLayout::ColMajor ? LdKind::Padded : LdKind::Compact;
                    else if (kind == LdKind::Exact)
                      spec.set_ld(exact);
                    else
                      spec.set_ld(kind == LdKind::Compact ? Ld::Compact : Ld::Padded);
                    vp::context(where + vp::fmt(" layout %d%s ld kind %d exact %ld", int(layout), l == 3 ? " (default)" : "", int(kind), exact));
                    Matrix<T, Device::CPU> a(d, spec);
                    auto look = [&](auto& m) {
                      VP_CHECK(m.allocation_layout() == layout, "allocation layout %d is reported", int(m.allocation_layout()));
                      VP_CHECK(test::is_allocated_as(m, layout), "is_allocated_as() denies the layout");
                      for (auto o : {AllocationLayout::ColMajor, AllocationLayout::Blocks, AllocationLayout::Tiles})
                        if (o != layout)
                          VP_CHECK(!test::is_allocated_as(m, o), "is_allocated_as(%d)", int(o));
                    };
                    look(a);
                    const auto s = stored<T>(a, dr, dc, rr, rc);
                    check_layout(s, layout, eff, exact, true);
                    // the sub-pipeline, the reference and the moved matrix are the same storage
                    {
                      auto x = a.sub_pipeline();
                      look(x);
                      auto y = x.sub_pipeline_const();
                      look(y);
                      VP_CHECK(stored<T>(y, dr, dc, rr, rc).at == s.at, "the sub-pipeline is stored elsewhere");
                    }
                    {
                      matrix::internal::MatrixRef<T, Device::CPU> f(a);
                      VP_CHECK(f.allocation_layout() == layout, "allocation layout of a reference");
                    }
                    {
                      Matrix<T, Device::CPU> b(std::move(a));
                      look(b);
                      VP_CHECK(stored<T>(b, dr, dc, rr, rc).at == s.at, "the moved matrix is stored elsewhere");
                      a = std::move(b);
                    }
                    // retiled: the storage stays
                    if (r.tpb == 1 && c.tpb == 1)
                      for (SizeType t : {1, 2})
                        if (r.nb % t == 0 && c.nb % t == 0) {
                          P1 r2 = r, c2 = c;
                          r2.nb /= t, r2.tpb = t, c2.nb /= t, c2.tpb = t;
                          auto x = a.retiled_sub_pipeline({t, t});
                          const auto xl = layout == AllocationLayout::Tiles && t > 1 ? AllocationLayout::Blocks : layout;
                          VP_CHECK(x.allocation_layout() == xl, "the retiled matrix reports the layout %d", int(x.allocation_layout()));
                          VP_CHECK(test::is_allocated_as(x, xl), "is_allocated_as() denies the layout of the retiled matrix");
                          const auto s2 = stored<T>(x, Dist1(r2), Dist1(c2), rr, rc);
                          VP_CHECK(s2.at == s.at, "the retiled matrix is stored elsewhere");
                          VP_CHECK(s2.ld == s.ld, "the retiled matrix has another leading dimension");
                        }
                  }
                // user memory
                for (SizeType extra : {0, 1, 3}) {
                  const SizeType ld = std::max<SizeType>(1, lm) + extra;
                  vp::context(where + vp::fmt(" user memory ld %ld", ld));
                  const ColMajorLayout layout(d, ld);
                  const SizeType need = lm == 0 || dc.local_n(rc) == 0 ? 0 : lm + ld * (dc.local_n(rc) - 1);
                  VP_CHECK(layout.min_mem_size() == need, "min_mem_size %ld instead of %ld", layout.min_mem_size(), need);
                  std::vector<T> mem(std::size_t(need), T(7));
                  const long live = vp::pool_live();
                  {
                    Matrix<T, Device::CPU> u(layout, mem.data());
                    Matrix<const T, Device::CPU> k(layout, static_cast<const T*>(mem.data()));
                    VP_CHECK(vp::pool_live() == live, "user memory was copied");
                    VP_CHECK(u.allocation_layout() == AllocationLayout::ColMajor && test::is_allocated_as(u, AllocationLayout::ColMajor), "layout of user memory");
                    const auto s = stored<T>(u, dr, dc, rr, rc), s2 = stored<T>(k, dr, dc, rr, rc);
                    check_layout(s, AllocationLayout::ColMajor, LdKind::Exact, ld, false);
                    VP_CHECK(s.at.empty() || s.at[0] == mem.data(), "user memory starts elsewhere");
                    VP_CHECK(s.at == s2.at, "user memory of a constant matrix");
                  }
                  if (r.grid == 1 && c.grid == 1 && r.tpb == 1 && c.tpb == 1) {
                    auto u = create_matrix_from_col_major<Device::CPU>(GlobalElementSize(r.n, c.n), TileElementSize(r.nb, c.nb), ld, mem.data());
                    VP_CHECK(stored<T>(u, dr, dc, rr, rc).at == stored<T>(u, dr, dc, rr, rc).at && u.distribution() == d, "create_matrix_from_col_major");
                    check_layout(stored<T>(u, dr, dc, rr, rc), AllocationLayout::ColMajor, LdKind::Exact, ld, false);
                    VP_CHECK(need == 0 || stored<T>(u, dr, dc, rr, rc).at[0] == mem.data(), "create_matrix_from_col_major: start");
                  }
                  for (auto& x : mem)
                    VP_CHECK(x == T(7), "user memory was modified");
                }
              }
          }
        }
    getTuneParameters().default_allocation_layout = AllocationLayout::ColMajor;
  });
  VP_CHECK(vp::pool_live() == 0, "%ld allocations are still alive", vp::pool_live());
}

// Through communicator grids: the distribution is the one of the grid
static void on_grid(int R, int C) {
  vp::ranks(R * C, 1, [&](int) {
    comm::CommunicatorGrid g(comm::Communicator(MPI_COMM_WORLD), R, C, common::Ordering::ColumnMajor);
    for (SizeType n : {0, 1, 5})
      for (SizeType m : {0, 3, 6})
        for (int si = 0; si < R; ++si)
          for (int sj = 0; sj < C; ++sj) {
            const P1 r{n, 2, 1, R, si, 0}, c{m, 1, 1, C, sj, 0};
            const Dist1 dr(r), dc(c);
            const int rr = g.rank().row(), rc = g.rank().col();
            const SizeType ld = dr.local_n(rr) + 2;
            std::vector<double> mem(std::size_t(ld * std::max<SizeType>(1, dc.local_n(rc))));
            auto u = create_matrix_from_col_major<Device::CPU>(GlobalElementSize(n, m), TileElementSize(2, 1), ld, g, {si, sj}, mem.data());
            VP_CHECK(u.distribution() == make(r, c, rr, rc), "distribution");
            const auto s = stored<double>(u, dr, dc, rr, rc);
            check_layout(s, AllocationLayout::ColMajor, LdKind::Exact, ld, false);
            VP_CHECK(s.at.empty() || s.at[0] == mem.data(), "start");
            if (si == 0 && sj == 0) {
              auto v = create_matrix_from_col_major<Device::CPU>(GlobalElementSize(n, m), TileElementSize(2, 1), ld, g, mem.data());
              VP_CHECK(v.distribution() == u.distribution() && stored<double>(v, dr, dc, rr, rc).at == s.at, "default source rank");
              Matrix<double, Device::CPU> w(GlobalElementSize(n, m), TileElementSize(2, 1), g, AllocationSpec(AllocationLayout::Tiles, 5));
              VP_CHECK(w.distribution() == u.distribution(), "distribution of a matrix on a grid");
              check_layout(stored<double>(w, dr, dc, rr, rc), AllocationLayout::Tiles, LdKind::Exact, 5, true);
            }
          }
  });
}

// Local matrices from their size only
static void local_constructors() {
  vp::ranks(1, 1, [&](int) {
    for (SizeType n : {0, 1, 4, 5})
      for (SizeType m : {0, 1, 3, 6})
        for (int l = 0; l < 4; ++l)
          for (int kind = 0; kind < 3; ++kind) {
            vp::context(vp::fmt("%ld x %ld, layout %d, constructor %d", n, m, l, kind));
            const P1 r{n, 2, 1, 1, 0, 0}, c{m, 3, 1, 1, 0, 0};
            const Dist1 dr(r), dc(c);
            const TileElementSize ts(2, 3);
            const AllocationSpec spec = l == 3 ? AllocationSpec() : AllocationSpec(AllocationLayout(l), SizeType(7));
            auto make_one = [&] {
              if (kind == 0)
                return l == 3 ? Matrix<double, Device::CPU>(GlobalElementSize(n, m), ts) : Matrix<double, Device::CPU>(GlobalElementSize(n, m), ts, spec);
              if (kind == 1)
                return l == 3 ? Matrix<double, Device::CPU>(LocalElementSize(n, m), ts) : Matrix<double, Device::CPU>(LocalElementSize(n, m), ts, spec);
              return l == 3 ? Matrix<double, Device::CPU>({n, m}, ts) : Matrix<double, Device::CPU>({n, m}, ts, spec);
            };
            auto a = make_one();
            VP_CHECK(a.distribution() == make(r, c, 0, 0) && a.distribution().grid_size() == comm::Size2D(1, 1) && a.distribution().source_rank_index() == comm::Index2D(0, 0), "distribution");
            VP_CHECK(a.size() == GlobalElementSize(n, m) && a.distribution().local_size() == LocalElementSize(n, m), "size");
            const auto st = stored<double>(a, dr, dc, 0, 0);
            if (l < 3)
              check_layout(st, AllocationLayout(l), LdKind::Exact, 7, true);
            ++vp::n_nontrivial;
          }
    VP_CHECK(vp::dies([&] { Matrix<double, Device::CPU> a({1, 2, 3}, TileElementSize(1, 1)); }) && vp::dies([&] { Matrix<double, Device::CPU> a({1}, TileElementSize(1, 1)); }), "a size without two extents is accepted");
  });
}

// What cannot be stored is refused
static void refuse() {
  for (SizeType n : {1, 3, 5})
    for (SizeType m : {0, 1, 4})
      for (int l = 0; l < 3; ++l)
        for (SizeType ld = -1; ld <= 7; ++ld) {
          const Distribution d(GlobalElementSize(n, m), TileElementSize(2, 2), {1, 1}, {0, 0}, {0, 0});
          const SizeType unit = m == 0 ? 1 : l == 0 ? n : std::min<SizeType>(n, 2);
          vp::context(vp::fmt("%ld x %ld layout %d ld %ld", n, m, l, ld));
          bool died = false;
          vp::ranks(1, 1, [&](int) {
            died = vp::dies([&] { Matrix<double, Device::CPU> a(d, AllocationSpec(AllocationLayout(l), ld)); });
          });
          vp::pool_reset();
          VP_CHECK(died == (ld < unit), "leading dimension %ld for %ld rows: %s", ld, unit, died ? "refused" : "accepted");
          if (l == 0) {
            died = vp::dies([&] { ColMajorLayout x(d, ld); });
            VP_CHECK(died == (ld < unit), "layout with leading dimension %ld for %ld rows: %s", ld, unit, died ? "refused" : "accepted");
          }
          ++vp::n_nontrivial;
        }
  // distributions that do not start with a complete tile
  for (SizeType oi : {0, 1, 2})
    for (SizeType oj : {0, 1})
      for (int l = 0; l < 3; ++l) {
        const Distribution d(GlobalElementSize(4, 4), TileElementSize(2, 2), {1, 1}, {0, 0}, {0, 0}, GlobalElementIndex(oi, oj));
        const bool bad = d.offset() != GlobalElementIndex(0, 0);
        vp::context(vp::fmt("offset (%ld,%ld) layout %d", oi, oj, l));
        bool died = false;
        vp::ranks(1, 1, [&](int) { died = vp::dies([&] { Matrix<double, Device::CPU> a(d, AllocationSpec(AllocationLayout(l))); }); });
        vp::pool_reset();
        VP_CHECK(died == bad, "a distribution with offset (%ld,%ld) is %s", oi, oj, died ? "refused" : "accepted");
        if (l == 0) {
          died = vp::dies([&] { ColMajorLayout x(d, 8); });
          VP_CHECK(died == bad, "a layout with offset (%ld,%ld) is %s", oi, oj, died ? "refused" : "accepted");
        }
        ++vp::n_nontrivial;
      }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P15";
    s.rule = "all distributions, allocation layouts and leading dimensions within the bounds on every rank, four element types, also as sub-pipeline, retiled and moved matrix and over user memory; "
             "non-trivial: a distinct stored element";
    const SizeType maxn = thorough ? 17 : 9;
    for (SizeType nb : {1, 2, 3, 4, 10})
      for (SizeType tpb : {1, 2, 3})
        for (int grid = 1; grid <= 3; ++grid) {
          auto add = [&](const char* t, void (*f)(SizeType, SizeType, int, SizeType)) {
            s.cases.push_back(vp::sched_case(vp::fmt("%s nb=%ld tpb=%ld grid=%d", t, nb, tpb, grid), [=] { f(nb, tpb, grid, nb == 10 ? (thorough ? 40 : 22) : maxn); }, 0, 1u << vp::FIFO, false, false));
          };
          add("double", &allocation<double>);
          if (thorough || nb == 10 || (nb == 2 && tpb == 2)) {
            add("float", &allocation<float>);
            add("complex float", &allocation<std::complex<float>>);
            add("complex double", &allocation<std::complex<double>>);
          }
        }
    for (int R = 1; R <= 3; ++R)
      for (int C = 1; C <= 2; ++C)
        s.cases.push_back(vp::sched_case(vp::fmt("grid %dx%d", R, C), [=] { on_grid(R, C); }, 0, 1u << vp::FIFO, false, false));
    s.cases.push_back(vp::sched_case("local constructors", local_constructors, 0, 1u << vp::FIFO, false, false));
    s.cases.push_back(vp::sched_case("refused", refuse, 0, 1u << vp::FIFO, false, false));
    return s;
  });
}
