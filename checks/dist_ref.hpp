// Reference model of a block-cyclic distribution along one coordinate, by walking over the elements.
#pragma once
#include <cstdint>
#include <vector>

#include <dlaf/types.h>

namespace ref {
using dlaf::SizeType;

struct P1 {
  SizeType n, nb, tpb;
  int grid, src;
  SizeType off;  // elements of the first block(s) that are not part of the matrix
};

struct Dist1 {
  P1 p;
  int src = 0;        // rank of element 0 (or of the position it would have)
  SizeType off = 0;   // offset inside the first block
  SizeType nt = 0;    // tiles
  SizeType nblk = 0;  // blocks
  std::vector<SizeType> tile, el;       // per element: tile, position in the tile
  std::vector<SizeType> lel;            // per element: local element index on its owner
  std::vector<int> owner;               // per element
  std::vector<SizeType> start, size;    // per tile
  std::vector<int> towner;              // per tile
  std::vector<SizeType> tblock;         // per tile: global block
  std::vector<SizeType> tlocal;         // per tile: local index on its owner
  std::vector<std::vector<SizeType>> ltiles;  // per rank: its global tiles, in order
  std::vector<std::vector<SizeType>> lels;    // per rank: its global elements, in order
  std::vector<SizeType> lblk;                 // per rank: number of blocks it owns something of

  explicit Dist1(const P1& q) : p(q) {
    const SizeType bs = p.nb * p.tpb;
    // skip the offset
    SizeType pos = 0;  // position inside the block
    int r = p.src;
    SizeType o = p.off;
    while (o >= bs) {
      o -= bs;
      r = (r + 1) % p.grid;
    }
    pos = o;
    src = r;
    off = o;
    ltiles.resize(static_cast<std::size_t>(p.grid));
    lels.resize(static_cast<std::size_t>(p.grid));
    lblk.assign(static_cast<std::size_t>(p.grid), 0);
    for (SizeType e = 0; e < p.n; ++e) {
      const bool new_block = e == 0 || pos == 0;
      const bool new_tile = e == 0 || pos % p.nb == 0;
      if (new_block) {
        ++nblk;
        ++lblk[static_cast<std::size_t>(r)];
      }
      if (new_tile) {
        start.push_back(e);
        size.push_back(0);
        towner.push_back(r);
        tblock.push_back(nblk - 1);
        tlocal.push_back(static_cast<SizeType>(ltiles[static_cast<std::size_t>(r)].size()));
        ltiles[static_cast<std::size_t>(r)].push_back(nt);
        ++nt;
      }
      tile.push_back(nt - 1);
      el.push_back(size.back());
      ++size.back();
      owner.push_back(r);
      lel.push_back(static_cast<SizeType>(lels[static_cast<std::size_t>(r)].size()));
      lels[static_cast<std::size_t>(r)].push_back(e);
      if (++pos == bs) {
        pos = 0;
        r = (r + 1) % p.grid;
      }
    }
  }
  SizeType local_nt(int rank) const {
    return static_cast<SizeType>(ltiles[static_cast<std::size_t>(rank)].size());
  }
  SizeType local_n(int rank) const {
    return static_cast<SizeType>(lels[static_cast<std::size_t>(rank)].size());
  }
  // local tiles of the rank with a global index smaller than t
  SizeType local_before(int rank, SizeType t) const {
    SizeType c = 0;
    for (auto g : ltiles[static_cast<std::size_t>(rank)])
      c += g < t;
    return c;
  }
};
}
