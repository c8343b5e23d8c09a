// Interface between minimpi, minipika and the oracles.
#pragma once
#include <functional>
#include <mpi.h>
#include <string>
#include <vector>
namespace vp {
struct TaskBase;
// spawns the task (as an event) when the request has completed, and ends one work_begin of the rank; the request is released
void mpi_on_complete(MPI_Request r, int rank, TaskBase* t);
void mpi_reset(int nranks);       // start of a run
std::string mpi_pending();        // unmatched operations, for deadlock reports
std::string mpi_leaks();          // what is still alive at the end of a run
// description of a type: list of (byte offset, length) per element and its extent
struct TypeMap {
  std::vector<std::pair<long, long>> blocks;
  long size = 0, extent = 0;
  bool committed = false, builtin = false;
};
TypeMap mpi_type_map(MPI_Datatype t);
long mpi_live_types();
long mpi_live_comms();
long mpi_live_requests();
std::vector<int> mpi_comm_world_ranks(MPI_Comm c);
bool mpi_comm_valid(MPI_Comm c);
void mpi_set_initialized(bool b);
int& mpi_thread_level();  // what MPI provides
// MPI_Abort throws mpi_aborted instead of being a violation
struct mpi_aborted {};
bool& mpi_abort_throws();
}
