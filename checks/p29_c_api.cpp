// P29: grids of the C API behave like a registry under any history; descriptors describe the right distribution.
#include <climits>
#include <cmath>
#include <map>
#include <string>
#include <vector>

#include <mpi.h>

#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include <dlaf/communication/communicator_grid.h>
#include <dlaf/matrix/col_major_layout.h>
#include <dlaf_c/desc.h>
#include <dlaf_c/utils.h>

#include "c_api.hpp"

using namespace dlaf;
using comm::CommunicatorGrid;
using vp::pick;

#define INSTANCE(k)                                                                                                                     \
  extern "C" int dlaf_create_grid__r##k(MPI_Comm, int, int, char);                                                                       \
  extern "C" void dlaf_free_grid__r##k(int);                                                                                             \
  extern "C" void dlaf_free_all_grids__r##k();                                                                                           \
  extern "C" char grid_ordering__r##k(MPI_Comm, int, int, int, int);                                                                     \
  extern "C" void dlaf_create_grid_from_blacs__r##k(int);                                                                                \
  extern "C" DLAF_descriptor make_dlaf_descriptor__r##k(int, int, int, int, const int*);                                                 \
  extern "C" int dlaf_cholesky_factorization_s__r##k(int, char, float*, DLAF_descriptor);                                                \
  extern "C" int dlaf_cholesky_factorization_d__r##k(int, char, double*, DLAF_descriptor);                                               \
  extern "C" int dlaf_cholesky_factorization_c__r##k(int, char, std::complex<float>*, DLAF_descriptor);                                  \
  extern "C" int dlaf_cholesky_factorization_z__r##k(int, char, std::complex<double>*, DLAF_descriptor);                                 \
  extern "C" void dlaf_pspotrf__r##k(char, int, float*, int, int, const int*, int*);                                                     \
  extern "C" void dlaf_pdpotrf__r##k(char, int, double*, int, int, const int*, int*);                                                    \
  extern "C" void dlaf_pcpotrf__r##k(char, int, std::complex<float>*, int, int, const int*, int*);                                       \
  extern "C" void dlaf_pzpotrf__r##k(char, int, std::complex<double>*, int, int, const int*, int*);                                      \
  CommunicatorGrid& grid_from_context__r##k(int) asm("_Z17grid_from_contexti__r" #k);                                                    \
  matrix::ColMajorLayout make_layout__r##k(DLAF_descriptor, CommunicatorGrid&) asm("_Z11make_layout15DLAF_descriptorRN4dlaf4comm16CommunicatorGridE__r" #k);
INSTANCE(0) INSTANCE(1) INSTANCE(2) INSTANCE(3)

// ---- descriptors
static void descriptors(int max) {
  const int m = pick(max + 1), n = pick(max + 1), mb = 1 + pick(2), nb = 1 + pick(3), gr = 1 + pick(2), gc = 1 + pick(2);
  const int isrc = pick(gr), jsrc = pick(gc), pad = pick(2);
  const bool row_major = pick(2);
  vp::context(vp::fmt("%dx%d in %dx%d blocks on %dx%d from (%d,%d), padding %d", m, n, mb, nb, gr, gc, isrc, jsrc, pad));
  vp::ranks(gr * gc, 2, [&](int rank) {
    start_runtime();
    const int ctxt = CALL(dlaf_create_grid)(MPI_COMM_WORLD, gr, gc, row_major ? 'R' : 'C');
    const int pr = row_major ? rank / gc : rank % gr, pc = row_major ? rank % gc : rank / gr;
    // elements of this rank
    std::vector<int> rows, cols;
    for (int i = 0; i < m; ++i)
      if ((i / mb + isrc) % gr == pr)
        rows.push_back(i);
    for (int j = 0; j < n; ++j)
      if ((j / nb + jsrc) % gc == pc)
        cols.push_back(j);
    const int ld = std::max<int>(1, int(rows.size())) + pad;
    const int desc[9] = {1, ctxt, m + 5, n + 7, mb, nb, isrc, jsrc, ld};
    const DLAF_descriptor d = CALL(make_dlaf_descriptor)(m, n, 1, 1, desc);
    VP_CHECK(d.m == m && d.n == n && d.mb == mb && d.nb == nb && d.isrc == isrc && d.jsrc == jsrc && d.i == 0 && d.j == 0 && d.ld == ld, "descriptor");
    {
      auto layout = CALL(make_layout)(d, CALL(grid_from_context)(ctxt));
      const auto& dist = layout.distribution();
      VP_CHECK(dist.size() == GlobalElementSize(m, n) && dist.local_size() == LocalElementSize(SizeType(rows.size()), SizeType(cols.size())), "sizes of the layout");
      for (std::size_t j = 0; j < cols.size(); ++j)
        for (std::size_t i = 0; i < rows.size(); ++i) {
          const GlobalElementIndex g(rows[i], cols[j]);
          VP_CHECK(dist.rank_global_tile(dist.global_tile_index(g)) == dist.rank_index(), "owner of (%d,%d)", rows[i], cols[j]);
          const auto t = dist.local_tile_index(dist.global_tile_index(g));
          const auto e = dist.tile_element_index(g);
          // where the user has it
          VP_CHECK(layout.tile_offset(t) + e.row() + e.col() * ld == SizeType(i) + SizeType(j) * ld, "place of (%d,%d) in the local array", rows[i], cols[j]);
        }
    }
    CALL(dlaf_free_grid)(ctxt);
    stop_runtime();
  });
  ++vp::n_nontrivial;
}
static void rejected_descriptors() {
  vp::mpi_set_initialized(true);
  for (int i = -1; i <= 3; ++i)
    for (int j = -1; j <= 3; ++j) {
      const int desc[9] = {1, 0, 4, 4, 2, 2, 0, 0, 4};
      vp::context(vp::fmt("sub-matrix from (%d,%d)", i, j));
      VP_CHECK(vp::dies([&] { make_dlaf_descriptor__r0(2, 2, i, j, desc); }) == (i != 1 || j != 1), "a descriptor is accepted only for matrices from (1,1)");
      ++vp::n_nontrivial;
    }
  for (int c : {0, 1, -1, INT_MAX, INT_MAX - 1, INT_MIN})
    VP_CHECK(vp::dies([&] { grid_from_context__r0(c); }), "a context without grid is accepted");
}

// ---- histories
struct GridSpec {
  std::vector<int> world;  // world ranks of the communicator, in order
  int nr, nc;
  bool row_major;
};
static void check_grid(int ctxt, const GridSpec& s, int me, bool communicate) {
  auto& g = CALL(grid_from_context)(ctxt);
  int r = -1;
  for (std::size_t k = 0; k < s.world.size(); ++k)
    if (s.world[k] == me)
      r = int(k);
  if (r >= s.nr * s.nc)
    return;  // not part of the grid
  const int pr = s.row_major ? r / s.nc : r % s.nr, pc = s.row_major ? r % s.nc : r / s.nr;
  VP_CHECK(g.size() == comm::Size2D(s.nr, s.nc), "context %d: the grid is %dx%d instead of %dx%d", ctxt, int(g.size().rows()), int(g.size().cols()), s.nr, s.nc);
  VP_CHECK(g.rank() == comm::Index2D(pr, pc), "context %d: the rank is (%d,%d) instead of (%d,%d)", ctxt, int(g.rank().row()), int(g.rank().col()), pr, pc);
  if (!communicate)
    return;
  // who is in my row / column / grid
  int all = 0, row = 0, col = 0;
  for (int k = 0; k < s.nr * s.nc; ++k) {
    const int bit = 1 << s.world[std::size_t(k)];
    all |= bit;
    if ((s.row_major ? k / s.nc : k % s.nr) == pr)
      row |= bit;
    if ((s.row_major ? k % s.nc : k / s.nr) == pc)
      col |= bit;
  }
  auto sum = [me](const comm::Communicator& c) {
    int mine = 1 << me, res = 0;
    MPI_Allreduce(&mine, &res, 1, MPI_INT, MPI_SUM, c);
    return res;
  };
  VP_CHECK(sum(g.fullCommunicator()) == all, "context %d: wrong ranks in the communicator of the grid", ctxt);
  VP_CHECK(sum(g.rowCommunicator()) == row, "context %d: wrong ranks in the row communicator", ctxt);
  VP_CHECK(sum(g.colCommunicator()) == col, "context %d: wrong ranks in the column communicator", ctxt);
}

// The operations are agreed upon by all ranks. Grids on a subset of the ranks make the contexts of the ranks differ.
static void history(int nranks, int depth, bool with_blacs) {
  struct Op {
    int kind, which, shape, order;
  };
  std::vector<std::pair<int, int>> shapes;
  for (int r = 1; r <= nranks; ++r)
    for (int c = 1; r * c <= nranks; ++c)
      if (r * c == nranks || (nranks > 2 && r == 1 && c == nranks - 1))
        shapes.push_back({r, c});
  std::vector<Op> ops;
  std::string text;
  // number the live grids by creation; -1: BLACS context 0 (all, column-major), -2: BLACS context 1 (reversed, row-major)
  std::vector<int> live;
  int created = 0;
  bool from_blacs[2] = {false, false};
  for (int d = 0; d < depth; ++d) {
    // 0 create on all, 1 create on reversed, 2 create on rank 0 alone, 3 free one, 4 free all, 5 from BLACS
    std::vector<Op> choices;
    for (int w = 0; w < 3; ++w)
      for (int s = 0; s < (w == 2 ? 1 : int(shapes.size())); ++s)
        for (int o = 0; o < (w == 2 || nranks == 1 ? 1 : 2); ++o)
          if (w != 2 || nranks > 1)
            choices.push_back({0, w, s, o});
    for (int l : live)
      choices.push_back({3, l, 0, 0});
    choices.push_back({4, 0, 0, 0});
    if (with_blacs)
      for (int b = 0; b < 2; ++b) {
        choices.push_back({5, b, 0, 0});
        if (from_blacs[b])
          choices.push_back({3, -1 - b, 0, 0});
      }
    const Op op = choices[std::size_t(pick(int(choices.size())))];
    ops.push_back(op);
    if (op.kind == 0) {
      live.push_back(created++);
      const char* names[] = {"all", "reversed", "rank 0"};
      text += vp::fmt(" create(%s %dx%d %c)", names[op.which], op.which == 2 ? 1 : shapes[std::size_t(op.shape)].first, op.which == 2 ? 1 : shapes[std::size_t(op.shape)].second, op.order ? 'R' : 'C');
    }
    else if (op.kind == 3) {
      if (op.which >= 0) {
        std::vector<int> l;
        for (int x : live)
          if (x != op.which)
            l.push_back(x);
        live = l;
      }
      else
        from_blacs[-1 - op.which] = false;
      text += vp::fmt(" free(%d)", op.which);
    }
    else if (op.kind == 4) {
      live.clear();
      from_blacs[0] = from_blacs[1] = false;
      text += " free-all";
    }
    else {
      from_blacs[op.which] = true;
      text += vp::fmt(" blacs(%d)", op.which);
    }
  }
  vp::context(vp::fmt("%d ranks:%s", nranks, text.c_str()));
  vp::ranks(nranks, 2, [&](int me) {
    start_runtime();
    MPI_Comm reversed, only0 = MPI_COMM_NULL;
    MPI_Comm_split(MPI_COMM_WORLD, 0, nranks - me, &reversed);
    if (nranks > 1)
      MPI_Comm_split(MPI_COMM_WORLD, me == 0 ? 0 : MPI_UNDEFINED, 0, &only0);
    std::vector<int> all, rev;
    for (int r = 0; r < nranks; ++r) {
      all.push_back(r);
      rev.push_back(nranks - 1 - r);
    }
    const auto last = shapes.back();
    blacs[me][0] = {MPI_COMM_WORLD, last.first, last.second, false};
    blacs[me][1] = {reversed, shapes[0].first, shapes[0].second, true};
    if (last.first * last.second != nranks)
      blacs[me][0] = {MPI_COMM_WORLD, nranks, 1, false};
    if (shapes[0].first * shapes[0].second != nranks)
      blacs[me][1] = {reversed, 1, nranks, true};
    const GridSpec bspec[2] = {{all, blacs[me][0].np, blacs[me][0].mp, false}, {rev, blacs[me][1].np, blacs[me][1].mp, true}};

    std::map<int, std::pair<int, GridSpec>> grids;  // number -> context and what it is
    int number = 0;
    bool b_live[2] = {false, false};
    for (const Op& op : ops) {
      if (op.kind == 0) {
        const int id = number++;
        if (op.which == 2 && me != 0)
          continue;
        GridSpec s{op.which == 0 ? all : op.which == 1 ? rev : std::vector<int>{0}, 1, 1, op.order == 1};
        if (op.which != 2) {
          s.nr = shapes[std::size_t(op.shape)].first;
          s.nc = shapes[std::size_t(op.shape)].second;
        }
        const int ctxt = CALL(dlaf_create_grid)(op.which == 0 ? MPI_COMM_WORLD : op.which == 1 ? reversed : only0, s.nr, s.nc, op.order ? (id % 2 ? 'r' : 'R') : (id % 2 ? 'c' : 'C'));
        for (auto& [n, g] : grids)
          VP_CHECK(ctxt != g.first, "context %d is handed out again while its grid is alive", ctxt);
        VP_CHECK(ctxt > INT_MAX / 2, "context %d may clash with contexts of BLACS", ctxt);
        grids[id] = {ctxt, s};
      }
      else if (op.kind == 3) {
        if (op.which < 0) {
          CALL(dlaf_free_grid)(-1 - op.which);
          b_live[-1 - op.which] = false;
        }
        else if (grids.count(op.which)) {
          CALL(dlaf_free_grid)(grids[op.which].first);
          grids.erase(op.which);
        }
      }
      else if (op.kind == 4) {
        CALL(dlaf_free_all_grids)();
        grids.clear();
        b_live[0] = b_live[1] = false;
      }
      else {
        CALL(dlaf_create_grid_from_blacs)(op.which);
        b_live[op.which] = true;
      }
      for (auto& [n, g] : grids)
        check_grid(g.first, g.second, me, false);
      for (int b = 0; b < 2; ++b)
        if (b_live[b])
          check_grid(b, bspec[b], me, false);
    }
    // all grids can be used (collectively, in the same order everywhere)
    for (int id = 0; id < number; ++id)
      if (grids.count(id))
        check_grid(grids[id].first, grids[id].second, me, true);
    for (int b = 0; b < 2; ++b)
      if (b_live[b])
        check_grid(b, bspec[b], me, true);
    CALL(dlaf_free_all_grids)();
    // the communicators of the user are still there
    int one = 1, res = 0;
    MPI_Allreduce(&one, &res, 1, MPI_INT, MPI_SUM, reversed);
    VP_CHECK(res == nranks, "communicator of the user");
    MPI_Comm_free(&reversed);
    if (only0 != MPI_COMM_NULL)
      MPI_Comm_free(&only0);
    MPI_Allreduce(&one, &res, 1, MPI_INT, MPI_SUM, MPI_COMM_WORLD);
    stop_runtime();
  });
  ++vp::n_nontrivial;
}

// ---- ordering of a grid, from the position of each rank
static void ordering(int max) {
  const int nr = 1 + pick(max), nc = 1 + pick(max / nr);
  const bool row_major = pick(2);
  vp::context(vp::fmt("order of a %dx%d %s-major grid", nr, nc, row_major ? "row" : "column"));
  vp::ranks(nr * nc, 2, [&](int rank) {
    const int pr = row_major ? rank / nc : rank % nr, pc = row_major ? rank % nc : rank / nr;
    const char c = CALL(grid_ordering)(MPI_COMM_WORLD, nr, nc, pr, pc);
    // both are right for grids with a single row or column
    VP_CHECK(nr == 1 || nc == 1 ? c == 'R' || c == 'C' : c == (row_major ? 'R' : 'C'), "the order is reported as '%c'", c);
  });
  ++vp::n_nontrivial;
}

// ---- a factorization through the C API; all numbers are small integers, so that it is exact
template <class T>
static T low(int i, int j) {
  if constexpr (isComplex_v<T>)
    return i == j ? T(1 << (i % 2)) : T((i + 2 * j) % 3 - 1, (2 * i + j) % 3 - 1);
  else
    return i == j ? T(1 << (i % 2)) : T((i + 2 * j) % 3 - 1);
}
template <class T>
static void cholesky(int gr, int gc, int max_n) {
  const int n = pick(max_n + 1), nb = 1 + pick(2), isrc = pick(gr), jsrc = pick(gc), pad = pick(2);
  const bool scalapack = pick(2), row_major = pick(2), lower = pick(2), small = pick(2);
  vp::context(vp::fmt("%s of %dx%d in blocks of %d on %dx%d (%c) from (%d,%d), padding %d, %s", lower ? "lower" : "upper", n, n, nb, gr, gc, row_major ? 'R' : 'C', isrc, jsrc, pad, scalapack ? "ScaLAPACK interface" : "DLA-Future interface"));
  vp::ranks(gr * gc, 2, [&](int rank) {
    start_runtime();
    const int other = CALL(dlaf_create_grid)(MPI_COMM_WORLD, gc, gr, row_major ? 'C' : 'R');
    const int ctxt = CALL(dlaf_create_grid)(MPI_COMM_WORLD, gr, gc, row_major ? 'R' : 'C');
    const int pr = row_major ? rank / gc : rank % gr, pc = row_major ? rank % gc : rank / gr;
    std::vector<int> rows, cols;
    for (int i = 0; i < n; ++i) {
      if ((i / nb + isrc) % gr == pr)
        rows.push_back(i);
      if ((i / nb + jsrc) % gc == pc)
        cols.push_back(i);
    }
    const int ld = std::max<int>(1, int(rows.size())) + pad;
    const T junk = T(-77);
    std::vector<T> a(std::size_t(ld) * (cols.size() + 1), junk), want = a;
    auto conj = [](T x) {
      if constexpr (isComplex_v<T>)
        return std::conj(x);
      else
        return x;
    };
    for (std::size_t j = 0; j < cols.size(); ++j)
      for (std::size_t i = 0; i < rows.size(); ++i) {
        const int x = rows[i], y = cols[j];
        T v(0);
        for (int k = 0; k <= std::min(x, y); ++k)
          v += low<T>(x, k) * conj(low<T>(y, k));
        const bool referenced = lower ? x >= y : x <= y;
        a[i + j * std::size_t(ld)] = referenced ? v : junk;
        if (referenced)
          want[i + j * std::size_t(ld)] = lower ? low<T>(x, y) : conj(low<T>(y, x));
      }
    const char uplo = lower ? (small ? 'l' : 'L') : (small ? 'u' : 'U');
    if (scalapack) {
      const int desc[9] = {1, ctxt, n, n, nb, nb, isrc, jsrc, ld};
      int info = -1;
      if constexpr (std::is_same_v<T, float>)
        CALL(dlaf_pspotrf)(uplo, n, a.data(), 1, 1, desc, &info);
      else if constexpr (std::is_same_v<T, double>)
        CALL(dlaf_pdpotrf)(uplo, n, a.data(), 1, 1, desc, &info);
      else if constexpr (std::is_same_v<T, std::complex<float>>)
        CALL(dlaf_pcpotrf)(uplo, n, a.data(), 1, 1, desc, &info);
      else
        CALL(dlaf_pzpotrf)(uplo, n, a.data(), 1, 1, desc, &info);
      VP_CHECK(info == 0, "info is %d", info);
    }
    else {
      const DLAF_descriptor d{n, n, nb, nb, isrc, jsrc, 0, 0, ld};
      int info;
      if constexpr (std::is_same_v<T, float>)
        info = CALL(dlaf_cholesky_factorization_s)(ctxt, uplo, a.data(), d);
      else if constexpr (std::is_same_v<T, double>)
        info = CALL(dlaf_cholesky_factorization_d)(ctxt, uplo, a.data(), d);
      else if constexpr (std::is_same_v<T, std::complex<float>>)
        info = CALL(dlaf_cholesky_factorization_c)(ctxt, uplo, a.data(), d);
      else
        info = CALL(dlaf_cholesky_factorization_z)(ctxt, uplo, a.data(), d);
      VP_CHECK(info == 0, "info is %d", info);
    }
    for (std::size_t k = 0; k < a.size(); ++k)
      VP_CHECK(a[k] == want[k], "element (%ld,%ld) of the local array of rank %d", long(k) % ld, long(k) / ld, rank);
    CALL(dlaf_free_grid)(ctxt);
    CALL(dlaf_free_grid)(other);
    stop_runtime();
  });
  ++vp::n_nontrivial;
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P29";
    s.rule = "all histories of creating, freeing and using grids (also from BLACS contexts) up to the depth, all descriptors within the bound, and factorizations through both C interfaces; every rank runs its own copy of the C API; "
             "under both MPI behaviours; non-trivial: a history, a descriptor or a factorization";
    using vp::ALL_POLICIES;
    constexpr unsigned two = (1u << vp::LIFO) | (1u << vp::EAGER), one = 1u << vp::LIFO;
    auto add = [&](std::string name, std::function<void()> f, int dev, unsigned pol, bool mpi, bool hb) {
      auto k = vp::sched_case(name, f, dev, pol, mpi, hb);
      k.split = 12;
      s.cases.push_back(k);
    };
    const int t = thorough;
    add("descriptors", [=] { descriptors(4 + t); }, 0, one, false, false);
    add("rejected descriptors", [=] { rejected_descriptors(); }, 0, one, false, false);
    add("orders of grids", [=] { ordering(4); }, 0, thorough ? unsigned(ALL_POLICIES) : two, true, false);
    add("histories on 1 rank", [=] { history(1, 6 + t, true); }, 0, one, false, false);
    add("histories on 2 ranks", [=] { history(2, 3 + t, true); }, 0, one, true, false);
    add("histories on 2 ranks, without BLACS", [=] { history(2, 4, false); }, 0, one, false, false);
    add("histories on 3 ranks", [=] { history(3, 2 + t, true); }, 0, one, false, false);
    add("histories on 4 ranks", [=] { history(4, 2, true); }, 0, one, false, false);
    add("double 1x1", [=] { cholesky<double>(1, 1, 3); }, 0, two, false, true);
    add("double 2x1", [=] { cholesky<double>(2, 1, 3); }, 0, two, true, false);
    add("double 1x2", [=] { cholesky<double>(1, 2, 3); }, 0, two, true, false);
    add("double 2x2", [=] { cholesky<double>(2, 2, 3 + t); }, 0, one, true, false);
    add("float 2x1", [=] { cholesky<float>(2, 1, 3); }, 0, one, false, false);
    add("complex<float> 1x2", [=] { cholesky<std::complex<float>>(1, 2, 3); }, 0, one, false, false);
    add("complex<double> 2x1", [=] { cholesky<std::complex<double>>(2, 1, 3); }, 0, one, false, false);
    return s;
  });
}
