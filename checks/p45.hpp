// Matrices written to files and read from them
#pragma once
#include <map>
#include <optional>

#include <dlaf/matrix/hdf5.h>

#include "algo.hpp"

namespace vp {
inline unsigned h5_execution = 0;
}
using namespace algo;
constexpr auto D = Device::CPU;
constexpr auto B = Backend::MC;

namespace {
// What a data set has to be: columns, rows, and real and imaginary parts
struct Raw {
  std::vector<hsize_t> dims;
  std::vector<double> v;
  bool is(const vp::h5::Dataset& d, SizeType unused = -1) const {
    if (d.dims != dims)
      return false;
    for (std::size_t k = 0; k < v.size(); ++k)
      if (SizeType(k) != unused && (d.set[k] != 1 || !(d.v[k] == v[k] || (d.v[k] != d.v[k] && v[k] != v[k]))))
        return false;
    return true;
  }
};
template <class T>
Raw raw(const Dense<T>& a) {
  Raw r;
  r.dims = {hsize_t(a.n), hsize_t(a.m), isComplex_v<T> ? 2u : 1u};
  for (const auto& x : a.v) {
    r.v.push_back(double(std::real(x)));
    if (isComplex_v<T>)
      r.v.push_back(double(std::imag(x)));
  }
  return r;
}
template <class T>
int type_of() {
  return sizeof(BaseType<T>) == 4 ? 1 : 2;
}
void start() {
  vp::h5::reset();
  ++vp::h5_execution;
}
template <class T>
T el(SizeType i, SizeType j) {
  return num<T>(double(1 + i + 20 * j), double(i - 2 * j));
}

// ---- files ----------------------------------------------------------------------------------------
enum { Serial, ParallelLocal, Parallel };

template <class T, class File>
void check_read(const File& file, CommunicatorGrid& grid, const char* name, bool dist, SizeType m, SizeType n, TileElementSize block, comm::Index2D src, const Dense<T>& want) {
  auto mat = dist ? file.template read<T, D>(name, block, grid, src) : file.template read<T, D>(name, block);
  const auto& d = mat.distribution();
  VP_CHECK(d.size() == GlobalElementSize(m, n) && d.block_size() == GlobalElementSize(block.rows(), block.cols()) && d.tile_size() == block, "the matrix that was read has another size");
  if (dist)
    VP_CHECK(d.grid_size() == grid.size() && d.rank_index() == grid.rank() && d.source_rank_index() == src, "the matrix that was read is distributed otherwise");
  else
    VP_CHECK(d.grid_size() == comm::Size2D(1, 1), "the matrix that was read is not local");
  expect<T>(mat, dist ? "distributed matrix from the file" : "local matrix from the file", want);
}

template <class T, class File>
void files(int gr, int gc, SizeType max, SizeType max_tile) {
  const int kind = pick(3);
  const SizeType m = pick(int(max) + 1), n = pick(int(max) + 1);
  const SizeType mb = 1 + pick(int(max_tile)), nb = 1 + pick(int(max_tile));
  const SizeType tr = 1 + pick(2), tc = 1 + pick(2);
  const int sr = kind == Parallel ? pick(gr) : 0, sc = kind == Parallel ? pick(gc) : 0;
  const SizeType rmb = 1 + pick(int(max_tile)), rnb = 1 + pick(int(max_tile));
  const int rsr = pick(gr), rsc = pick(gc);
  const bool tiles = pick(2);
  const char* const kinds[] = {"a serial file", "a parallel file, local matrix", "a parallel file"};
  vp::context(vp::fmt("%s, %ldx%ld in tiles of %ldx%ld, %ldx%ld per block, grid %dx%d from (%d,%d) to %s%s, read in tiles of %ldx%ld from (%d,%d)", type_name<T>(), m, n, mb, nb, tr, tc, gr, gc, sr, sc, kinds[kind],
                      tiles ? ", tile layout" : "", rmb, rnb, rsr, rsc));
  start();
  const Dense<T> a(m, n, el<T>);
  using R = BaseType<T>;
  const Dense<R> b(n, m, [](SizeType i, SizeType j) { return R(3 * i - j); });
  const int writer = gr * gc / 2;
  on(false, gr, gc, [&](Place p) {
    auto& grid = *p.grid;
    const int rank = vp::current_rank();
    const Place where{kind == Parallel ? p.grid : nullptr, p.memory, p.layouts};
    const comm::Index2D src(rsr, rsc);
    auto all = [&](const File& file) {
      check_read<T>(file, grid, "/a", false, m, n, {rmb, rnb}, src, a);
      check_read<T>(file, grid, "/a", true, m, n, {rmb, rnb}, src, a);
      check_read<R>(file, grid, "/b", true, n, m, {rmb, rnb}, src, b);
      check_read<R>(file, grid, "/b", false, n, m, {rmb, rnb}, src, b);
    };
    auto mat = where.make<T>(m, n, mb, nb, sr, sc, tiles, tr, tc);
    auto other = where.make<R>(n, m, nb, mb, sr, sc, tiles, tc, tr);
    fill(mat, a);
    fill(other, b);
    {
      std::optional<File> file;
      if (kind != Serial)
        file.emplace(grid.fullCommunicator(), "file.h5");
      else if (rank == writer)
        file.emplace("file.h5", File::FileMode::readwrite);
      if (file) {
        file->write(mat, "/a");
        // what happens to the matrix next is not in the file
        fill(mat, [](SizeType, SizeType) { return T(-1); });
        file->write(other, "/b");
        file->flush();
      }
      if (kind != Serial)
        MPI_Barrier(grid.fullCommunicator());
      if (file)
        all(*file);
    }
    MPI_Barrier(grid.fullCommunicator());
    const File again("file.h5", File::FileMode::readonly);
    all(again);
    if (kind != Serial || rank == writer)
      expect<T>(mat, "matrix after it was written", Dense<T>(m, n, [](SizeType, SizeType) { return T(-1); }));
  });
  vp::h5::check_end();
  VP_CHECK(vp::h5::files().size() == 1, "%zu files were created", vp::h5::files().size());
  const auto& f = *vp::h5::files().begin()->second;
  VP_CHECK(f.sets.size() == 2 && f.sets.count("/a") && f.sets.count("/b"), "other data sets were created");
  VP_CHECK(f.sets.at("/a")->type == type_of<T>() && f.sets.at("/b")->type == type_of<T>(), "types of the data sets");
  VP_CHECK(raw(a).is(*f.sets.at("/a")) && raw(b).is(*f.sets.at("/b")), "the data sets are not the matrices");
}
}

void files_release(int gr, int gc);
