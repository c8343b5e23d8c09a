// Runs the main function of a miniapp on a rank of the closed system. The initialisation and finalisation of the libraries
// (P30) are replaced, and the algorithm is wrapped to put errors into its results.
#pragma once
#include <functional>
#include <string>

#include <pika/init.hpp>
#include <pika/program_options.hpp>

#include <dlaf/communication/init.h>
#include <dlaf/init.h>
#include <dlaf/matrix/matrix.h>
#include <dlaf/types.h>

#include <blas/util.hh>
#include <cstdlib>
#include <dlaf/blas/tile.h>
#include <dlaf/common/format_short.h>
#include <dlaf/common/range2d.h>
#include <dlaf/common/single_threaded_blas.h>
#include <dlaf/common/timer.h>
#include <dlaf/communication/communicator_grid.h>
#include <dlaf/communication/sync/broadcast.h>
#include <dlaf/communication/sync/reduce.h>
#include <dlaf/eigensolver/internal/get_band_size.h>
#include <dlaf/matrix/hdf5.h>
#include <dlaf/miniapp/dispatch.h>
#include <dlaf/miniapp/options.h>
#include <pika/runtime.hpp>

#include "p44_fault.hpp"
#include "sched.hpp"

namespace p44 {
template <class T>
void corrupt(dlaf::matrix::Matrix<T, dlaf::Device::CPU>& mat, int what) {
  if (fault.what != what)
    return;
  const auto& d = mat.distribution();
  const dlaf::GlobalElementIndex ij(fault.i, fault.j);
  for (const auto t : dlaf::common::iterate_range2d(d.local_nr_tiles())) {
    const auto tile = d.global_tile_index(t);
    if (!fault.nan && tile != d.global_tile_index(ij))
      continue;
    const dlaf::TileElementIndex el = fault.nan ? dlaf::TileElementIndex(-1, -1) : d.tile_element_index(ij);
    pika::execution::experimental::start_detached(mat.readwrite(tile) |
                                                  dlaf::internal::transform(dlaf::internal::Policy<dlaf::Backend::MC>(), [=](const dlaf::matrix::Tile<T, dlaf::Device::CPU>& a) {
                                                    for (const auto k : dlaf::common::iterate_range2d(a.size()))
                                                      if (el.row() < 0)
                                                        a(k) = std::numeric_limits<dlaf::BaseType<T>>::quiet_NaN();
                                                      else if (k == el)
                                                        a(k) += T(1);
                                                  }));
  }
}
}
namespace pika {
struct p44_finalize {
  ~p44_finalize() {}
};
template <class F>
int p44_init(F f, int argc, char** argv, const init_params& p) {
  program_options::options_description d("");
  d.add(p.desc_cmdline);
  program_options::variables_map vm;
  program_options::store(program_options::command_line_parser(argc, argv).options(d).run(), vm);
  program_options::notify(vm);
  return f(vm);
}
}
namespace dlaf {
struct p44_initializer {
  template <class... A>
  p44_initializer(A&&...) {}
  ~p44_initializer() {}
};
namespace miniapp {
template <class Miniapp, class O>
void p44_dispatchMiniapp(const O& opts) {
  if (!p44::only_options)
    dispatchMiniapp<Miniapp>(opts);
}
}
namespace comm {
struct p44_mpi_init {
  p44_mpi_init(int, char**) {}
  ~p44_mpi_init() {}
};
}
}
#define dispatchMiniapp p44_dispatchMiniapp
#define init p44_init
#define scoped_finalize p44_finalize
#define ScopedInitializer p44_initializer
#define mpi_init p44_mpi_init
