// P01: the 1D index conversions against the block-cyclic definition, by walking over the elements.
#include <dlaf/matrix/util_distribution.h>

#include "pure.hpp"

using dlaf::SizeType;
using namespace dlaf::util::matrix;
using i128 = __int128;

static void elements(SizeType nb, SizeType off, SizeType window, const std::vector<SizeType>& far) {
  // walk over the elements from the first one; tile 0 starts at position `off` of a full tile
  SizeType tile = 0, el = 0;
  const SizeType first = nb - off;
  for (SizeType e = 0; e < window; ++e) {
    ++vp::n_nontrivial;
    VP_CHECK(tile_from_element(e, nb, off) == tile, "e=%ld nb=%ld off=%ld: %ld, expected %ld", e, nb, off,
             tile_from_element(e, nb, off), tile);
    VP_CHECK(tile_element_from_element(e, nb, off) == el, "e=%ld nb=%ld off=%ld: %ld, expected %ld", e, nb, off,
             tile_element_from_element(e, nb, off), el);
    VP_CHECK(element_from_tile_and_tile_element(tile, el, nb, off) == e, "tile=%ld el=%ld nb=%ld off=%ld: %ld, expected %ld",
             tile, el, nb, off, element_from_tile_and_tile_element(tile, el, nb, off), e);
    for (auto k : far) {
      // k whole tiles further on; shifting by whole tiles changes the tile index only
      if (tile == 0)
        continue;
      if (i128(e) + i128(k) * nb > i128(INT64_MAX) - nb)
        continue;
      const SizeType E = e + k * nb;
      VP_CHECK(tile_from_element(E, nb, off) == tile + k, "e=%ld nb=%ld off=%ld", E, nb, off);
      VP_CHECK(tile_element_from_element(E, nb, off) == el, "e=%ld nb=%ld off=%ld: %ld, expected %ld", E, nb, off,
               tile_element_from_element(E, nb, off), el);
      VP_CHECK(element_from_tile_and_tile_element(tile + k, el, nb, off) == E, "tile=%ld el=%ld nb=%ld off=%ld", tile + k, el,
               nb, off);
    }
    ++el;
    if (el == (tile == 0 ? first : nb)) {
      el = 0;
      ++tile;
    }
  }
}

// huge tiles: the same by closed form in 128-bit arithmetic, around every tile border
static void huge_elements(SizeType nb) {
  for (SizeType off : {SizeType(0), SizeType(1), nb / 3, nb / 2, nb - 1})
    for (SizeType t : {0, 1, 2, 3, 7})
      for (SizeType d = -3; d <= 3; ++d) {
        const i128 E = i128(t) * nb - off + d;
        if (E < 0 || E > i128(INT64_MAX) / 2)
          continue;
        const SizeType e = static_cast<SizeType>(E);
        const i128 tile = (E + off) / nb;
        const i128 el = (E + off) % nb - (tile == 0 ? off : 0);
        ++vp::n_nontrivial;
        VP_CHECK(tile_from_element(e, nb, off) == tile, "e=%ld nb=%ld off=%ld", e, nb, off);
        VP_CHECK(tile_element_from_element(e, nb, off) == el, "e=%ld nb=%ld off=%ld", e, nb, off);
        VP_CHECK(element_from_tile_and_tile_element(SizeType(tile), SizeType(el), nb, off) == e, "e=%ld nb=%ld off=%ld", e, nb,
                 off);
      }
}

static void tiles(SizeType tpb, int grid, int src, SizeType toff, SizeType window, const std::vector<SizeType>& far) {
  // walk over the tiles: block 0 has tpb - toff tiles and belongs to src, following blocks to the following ranks
  std::vector<SizeType> count(static_cast<std::size_t>(grid), 0);
  int owner = src;
  SizeType in_block = toff;
  for (SizeType t = 0; t < window; ++t) {
    ++vp::n_nontrivial;
    const int r = rank_global_tile(t, tpb, grid, src, toff);
    VP_CHECK(r == owner, "tile %ld tpb=%ld grid=%d src=%d toff=%ld: rank %d, expected %d", t, tpb, grid, src, toff, r, owner);
    for (int rank = 0; rank < grid; ++rank) {
      const SizeType n = count[static_cast<std::size_t>(rank)];
      const SizeType l = local_tile_from_global_tile(t, tpb, grid, rank, src, toff);
      VP_CHECK(l == (rank == owner ? n : -1), "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld: local %ld, expected %ld", t, tpb,
               grid, rank, src, toff, l, rank == owner ? n : -1);
      const SizeType nx = next_local_tile_from_global_tile(t, tpb, grid, rank, src, toff);
      VP_CHECK(nx == n, "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld: next local %ld, expected %ld", t, tpb, grid, rank, src,
               toff, nx, n);
    }
    {
      const SizeType n = count[static_cast<std::size_t>(owner)];
      const SizeType g = global_tile_from_local_tile(n, tpb, grid, owner, src, toff);
      VP_CHECK(g == t, "local tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld: global %ld, expected %ld", n, tpb, grid, owner,
               src, toff, g, t);
    }
    for (auto k : far) {
      // k periods of grid*tpb tiles further on; each rank owns k*tpb more tiles
      if (i128(t) + i128(k) * tpb * grid > i128(INT64_MAX) / 2)
        continue;
      const SizeType T = t + k * tpb * grid;
      VP_CHECK(rank_global_tile(T, tpb, grid, src, toff) == owner, "tile %ld tpb=%ld grid=%d src=%d toff=%ld", T, tpb, grid, src,
               toff);
      for (int rank = 0; rank < grid; ++rank) {
        const SizeType n = count[static_cast<std::size_t>(rank)] + k * tpb;
        VP_CHECK(local_tile_from_global_tile(T, tpb, grid, rank, src, toff) == (rank == owner ? n : -1),
                 "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld", T, tpb, grid, rank, src, toff);
        VP_CHECK(next_local_tile_from_global_tile(T, tpb, grid, rank, src, toff) == n,
                 "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld", T, tpb, grid, rank, src, toff);
        if (rank == owner)
          VP_CHECK(global_tile_from_local_tile(n, tpb, grid, rank, src, toff) == T,
                   "local %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld", n, tpb, grid, rank, src, toff);
      }
    }
    ++count[static_cast<std::size_t>(owner)];
    if (++in_block == tpb) {
      in_block = 0;
      owner = (owner + 1) % grid;
    }
  }
}

// huge blocks / large grids: closed form in 128-bit arithmetic at block borders
static void huge_tiles(SizeType tpb, int grid) {
  for (int src : {0, 1 % grid, grid / 2, grid - 1})
    for (SizeType toff : {SizeType(0), SizeType(1) % tpb, tpb / 2, tpb - 1})
      for (SizeType b : {SizeType(0), SizeType(1), SizeType(2), SizeType(grid) - 1, SizeType(grid), SizeType(grid) + 1, SizeType(2) * grid,
                         SizeType(3) * grid + 1})
        for (SizeType d = -2; d <= 2; ++d) {
          const i128 T = i128(b) * tpb - toff + d;
          if (T < 0 || T > i128(INT64_MAX) / 2)
            continue;
          const SizeType t = static_cast<SizeType>(T);
          const i128 blk = (T + toff) / tpb;
          const int owner = static_cast<int>((blk + src) % grid);
          ++vp::n_nontrivial;
          VP_CHECK(rank_global_tile(t, tpb, grid, src, toff) == owner, "tile %ld tpb=%ld grid=%d src=%d toff=%ld: %d, expected %d", t,
                   tpb, grid, src, toff, rank_global_tile(t, tpb, grid, src, toff), owner);
          for (int rank : {owner, (owner + 1) % grid, (owner + grid - 1) % grid, src, 0, grid - 1}) {
            const int rel = (rank - src + grid) % grid;  // first block of the rank
            // complete blocks of the rank before block blk
            const i128 full = blk > rel ? (blk - rel - 1) / grid + 1 : 0;
            i128 n = full * tpb;
            if (rel == 0 && full > 0)
              n -= toff;
            if (rank == owner)
              n += (T + toff) % tpb - (blk == 0 ? toff : 0);
            VP_CHECK(next_local_tile_from_global_tile(t, tpb, grid, rank, src, toff) == n,
                     "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld: %ld, expected %ld", t, tpb, grid, rank, src, toff,
                     next_local_tile_from_global_tile(t, tpb, grid, rank, src, toff), SizeType(n));
            VP_CHECK(local_tile_from_global_tile(t, tpb, grid, rank, src, toff) == (rank == owner ? n : -1),
                     "tile %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld", t, tpb, grid, rank, src, toff);
            if (rank == owner)
              VP_CHECK(global_tile_from_local_tile(SizeType(n), tpb, grid, rank, src, toff) == t,
                       "local %ld tpb=%ld grid=%d rank=%d src=%d toff=%ld", SizeType(n), tpb, grid, rank, src, toff);
          }
        }
}

int main(int argc, char** argv) {
  return vp::explore_main(argc, argv, [](bool thorough) {
    vp::Suite s;
    s.property = "P01";
    s.rule = "every (tile size, offset, tiles per block, grid size, rank, source rank, tile offset) within the bounds and every element/tile "
             "of a window of several periods, at the start of the index range and shifted far beyond 32 bits; an input is "
             "non-trivial if it is a distinct (parameters, element) or (parameters, tile) pair";
    const std::vector<SizeType> far = {1, 1000003, (SizeType(1) << 31) - 1, SizeType(1) << 31, (SizeType(1) << 32) - 1, (SizeType(1) << 32) + 1,
                                       (SizeType(1) << 40) + 5};
    const SizeType maxnb = thorough ? 200 : 40;
    for (SizeType nb = 1; nb <= maxnb; ++nb)
      s.cases.push_back(vp::data_case("elements nb=" + std::to_string(nb), [=] {
        for (SizeType off = 0; off < nb; ++off)
          elements(nb, off, 5 * nb + 3, far);
      }));
    for (SizeType nb : {64, 100, 255, 256, 257, 1000, 1024})
      s.cases.push_back(vp::data_case("elements nb=" + std::to_string(nb), [=] {
        for (SizeType off : {SizeType(0), SizeType(1), nb / 2, nb - 1})
          elements(nb, off, 3 * nb + 3, far);
      }));
    for (int sh : {15, 16, 30, 31, 32, 33, 40, 50})
      for (SizeType d = -1; d <= 1; ++d)
        s.cases.push_back(vp::data_case("huge tile size 2^" + std::to_string(sh) + (d < 0 ? "-1" : d ? "+1" : ""), [=] { huge_elements((SizeType(1) << sh) + d); }));
    const SizeType maxtpb = thorough ? 16 : 9;
    const int maxgrid = thorough ? 24 : 12;
    for (SizeType tpb = 1; tpb <= maxtpb; ++tpb)
      for (int grid = 1; grid <= maxgrid; ++grid)
        s.cases.push_back(vp::data_case("tiles per block=" + std::to_string(tpb) + " grid=" + std::to_string(grid), [=] {
          for (int src = 0; src < grid; ++src)
            for (SizeType toff = 0; toff < tpb; ++toff)
              tiles(tpb, grid, src, toff, 3 * tpb * grid + 2, far);
        }));
    for (SizeType tpb : {SizeType(1), SizeType(3), SizeType(64), (SizeType(1) << 31) - 1, SizeType(1) << 31, (SizeType(1) << 32) + 1, SizeType(1) << 40})
      for (int grid : {1, 2, 3, 7, 64, 1000, 40000, 70000, 1 << 20})
        s.cases.push_back(vp::data_case("huge tiles per block=" + std::to_string(tpb) + " grid=" + std::to_string(grid),
                                        [=] { huge_tiles(tpb, grid); }));
    return s;
  });
}
