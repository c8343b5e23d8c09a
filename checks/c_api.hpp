// What the checks of the C API share. Every rank has its own copy of the C API (and of its state), as it would have in a
// process of its own; the copies are told apart by a suffix.
#pragma once
#include <complex>
#include <map>

#include <mpi.h>

#include <pika/init.hpp>
#include <pika/runtime.hpp>

#include "sched.hpp"

#define API(name) (decltype(&name##__r0)[]){name##__r0, name##__r1, name##__r2, name##__r3}
#define CALL(name) (API(name)[vp::current_rank()])

// ---- a model of BLACS: contexts are numbered from 0
struct Blacs {
  MPI_Comm comm = MPI_COMM_NULL;
  int np = 0, mp = 0;
  bool row_major = false;
};
static std::map<int, Blacs> blacs[4];
extern "C" void Cblacs_get(int ctxt, int what, int* val) {
  VP_CHECK(what == 10, "Cblacs_get: unexpected request %d", what);
  VP_CHECK(blacs[vp::current_rank()].count(ctxt), "Cblacs_get: no such context %d", ctxt);
  *val = 1000 + ctxt;
}
extern "C" MPI_Comm Cblacs2sys_handle(int sys) {
  VP_CHECK(blacs[vp::current_rank()].count(sys - 1000), "Cblacs2sys_handle: no such system context %d", sys);
  return blacs[vp::current_rank()][sys - 1000].comm;
}
extern "C" void Cblacs_gridinfo(int ctxt, int* np, int* mp, int* px, int* py) {
  VP_CHECK(blacs[vp::current_rank()].count(ctxt), "Cblacs_gridinfo: no such context %d", ctxt);
  auto& b = blacs[vp::current_rank()][ctxt];
  int r;
  MPI_Comm_rank(b.comm, &r);
  *np = b.np;
  *mp = b.mp;
  *px = b.row_major ? r / b.mp : r % b.np;
  *py = b.row_major ? r % b.mp : r / b.np;
}

static void start_runtime() {
  pika::vp_detail::not_started();
  pika::start(0, nullptr);
  pika::suspend();
}
static void stop_runtime() {
  VP_CHECK(pika::vp_detail::life().suspended && pika::vp_detail::life().started, "the runtime is not suspended after a call");
  pika::resume();
  pika::finalize();
  pika::stop();
  pika::vp_detail::back_to_default();
}
