#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (single source of the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, hook=None):
    assert len(title) <= 80, (id, len(title))
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mech],
                          hook_needed=hook))
    if observe: d['anchors']['observe_at'] = observe
    P.append(d)

I = 'include/dlaf/'
S = 'src/'

p('P01', 'Block-cyclic index arithmetic is an exact bijection',
  'For every tile size, offset, tiles-per-block, grid size and source rank, the one-dimensional index conversions agree with the block-cyclic definition: each global element belongs to exactly one position of one tile, each global tile to exactly one rank and one local position, and conversions in opposite directions are inverse to each other. Asking a rank for the local index of a tile it does not own yields -1, and asking for its next local tile yields the number of its tiles that precede the given one. The results stay exact for element and tile indices beyond 32 bits.',
  ['inputs', 'configurations'],
  'all tile sizes, tile/element offsets, tiles per block, grid sizes, ranks, source ranks and indices up to the bound, plus shifted copies of the whole table at indices beyond 2^31',
  'test_util_distribution checks a list of hand-written rows; the conversions must hold for the full cross product of seven parameters.',
  [I+'matrix/util_distribution.h'],
  [('tile_from_element/tile_element_from_element/element_from_tile_and_tile_element', I+'matrix/util_distribution.h'),
   ('rank_global_tile/local_tile_from_global_tile/next_local_tile_from_global_tile/global_tile_from_local_tile', I+'matrix/util_distribution.h')])

p('P02', 'Every distribution partitions its matrix over the process grid',
  'For every matrix size, tile size, block size, grid, source rank and offset, the local tiles of all ranks together are exactly the tiles of the global matrix, their sizes sum up to the matrix size, and every local/global element, tile, block and rank conversion offered by a distribution is consistent with that partition. Distances, linear tile indices, tile sizes and adjacency helpers agree with explicit enumeration of elements. A moved-from distribution is the valid empty distribution, equality compares exactly the described layout, and constructor parameters that describe no distribution are refused.',
  ['inputs', 'configurations'],
  'all two-dimensional distributions with extents, tiles, tiles per block, grid extents, source ranks and offsets up to the bound, on every rank',
  'test_distribution needs a running pika and does not even build here; it lists about a dozen parameter rows.',
  [I+'matrix/distribution.h', S+'matrix/distribution.cpp', I+'matrix/distribution_extensions.h'],
  [('Distribution::computeSizes', S+'matrix/distribution.cpp'), ('distribution helpers', I+'matrix/distribution_extensions.h')])

p('P03', 'A sub-distribution describes exactly the sub-range of its parent',
  'For every distribution and every origin and size inside it, the sub-distribution has the requested size, keeps grid and rank, and each of its elements lives on the same rank, in the tile part and at the same position within the parent storage as the corresponding parent element. Taking a sub-distribution of a sub-distribution equals taking the composed range at once, and the whole range gives back the original. The helpers translating sub-indices to parent tiles and in-tile offsets agree with that correspondence.',
  ['inputs', 'configurations'],
  'all (distribution, origin, size) triples up to the bound including empty ranges, and all compositions of two of them',
  'Existing tests use a handful of origins; errors show only for particular combinations of offset, block and source rank.',
  [S+'matrix/distribution.cpp', I+'matrix/distribution_extensions.h', I+'matrix/matrix_ref.h'],
  [('Distribution(Distribution, SubDistributionSpec)', S+'matrix/distribution.cpp'), ('global_tile_index_from_sub_distribution', I+'matrix/distribution_extensions.h')])

p('P04', '2D indices, sizes and ranges enumerate exactly the described rectangle',
  'For every index and size type, iterating a two-dimensional range visits each index of the half-open rectangle exactly once in column-major order, and the linear index conversions in row-major and column-major order are inverse bijections between the rectangle and 0..n-1. Containment, emptiness, validity, transposition and arithmetic agree with the component-wise definition. Empty rectangles are visited zero times.',
  ['inputs'],
  'all begin/end/size pairs up to the bound including empty and degenerate ones, all orderings and scalar types in use',
  'Tests use single shapes such as 7x5; no test takes the product of shapes and orderings.',
  [I+'common/index2d.h', I+'common/range2d.h', I+'matrix/index.h', I+'communication/index.h'],
  [('computeCoords/computeLinearIndex', I+'common/index2d.h'), ('iterate_range2d', I+'common/range2d.h')])

p('P05', 'Integer helpers are exact and never silently lose a value',
  'Checked integer conversions either return exactly the given value or report the failure, for all source/target type pairs including signedness changes, and combined conversions do not lose a value in between. Rounded-up division returns the least integer not below the quotient, and the helper functions on indices and memory sizes return the exact mathematical result on their domain.',
  ['inputs'],
  'all values of 8 and 16 bit source types and boundary neighbourhoods of 32 and 64 bit types for all pairs of integer types',
  'Tests probe a few boundary values of a few type pairs.',
  [I+'types.h', I+'util_math.h', I+'util_string.h'],
  [('integral_cast/to_int/to_uint/to_sizet/to_signed/to_unsigned', I+'types.h'), ('ceilDiv', I+'util_math.h')])

p('P06', 'Strided data descriptors touch exactly the elements they describe',
  'A data descriptor with given block count, block size and stride describes exactly that set of elements; copying between any two descriptors of the same element count transfers the elements in order and leaves every byte outside the destination description unchanged. The contiguity test is true only if the described elements occupy one gap-free stretch, and a temporary contiguous buffer holds exactly the described count.',
  ['inputs'],
  'all pairs of descriptors with block counts, block sizes and strides up to the bound, for buffers, C arrays, pointers and containers',
  'Tests use one strided shape; wrong shortcuts only show for particular combinations (single block, stride equal to block size, single element blocks).',
  [I+'common/data_descriptor.h', I+'common/data.h'],
  [('DataDescriptor/is_contiguous/create_temporary_buffer/copy', I+'common/data_descriptor.h')])

p('P07', 'Messages transmit exactly the described elements and free their types once',
  'A message built from any data descriptor or buffer has a pointer, count and transfer type that together cover exactly the described elements of the described element type, in order. Every custom transfer type is committed before use and freed exactly once, however messages and type handlers are moved, move-assigned or swapped.',
  ['inputs', 'histories'],
  'all descriptor shapes up to the bound and all sequences of construct/move/move-assign/destroy operations on a set of handlers up to the depth bound',
  'Tests check two shapes and one move; leaks and double frees of types are invisible to them.',
  [I+'communication/message.h', I+'communication/type_handler.h', I+'communication/datatypes.h', S+'communication/datatypes.cpp'],
  [('type_handler', I+'communication/type_handler.h'), ('Message', I+'communication/message.h'), ('mpi_datatype', I+'communication/datatypes.h')])

p('P08', 'Communicators own and release their MPI resources exactly once',
  'A managed or cloned communicator is released exactly once when its last copy dies, borrowed ones are never released, and the reported size and rank are those of the underlying communicator. This holds for every sequence of copies, moves, clones and destructions, and using a null communicator is detected.',
  ['histories'],
  'all operation sequences over a set of communicator objects up to the depth bound',
  'Tests build each kind once; a leak or double free is not observable in them.',
  [I+'communication/communicator.h', S+'communication/communicator.cpp', S+'communication/communicator_impl.cpp', S+'communication/communicator_impl.h'],
  [('CommunicatorImpl', S+'communication/communicator_impl.cpp'), ('make_communicator_managed', I+'communication/communicator.h')])

p('P09', 'Blocking communication wrappers deliver exact data for every layout',
  'The blocking send, receive, broadcast, reduce and all-reduce wrappers deliver to each participating rank exactly the values prescribed by the operation for every root, operation, rank count and memory layout of the buffers. Elements outside the described buffers are unchanged, in-place and out-of-place forms agree, and all ranks finish.',
  ['inputs', 'schedules', 'configurations'],
  'all rank counts, roots, pairs of source and destination layouts and reduction operations up to the bound, under eager and rendezvous completion and all rank interleavings up to the deviation bound',
  'Tests run with the fixed six ranks of the build and one strided layout.',
  [I+'communication/functions_sync.h', I+'communication/sync/basic.h', I+'communication/sync/broadcast.h', I+'communication/sync/reduce.h', I+'communication/sync/all_reduce.h'],
  [('sync::{send,receive,broadcast,reduce,all_reduce}', I+'communication/sync')])

p('P10', 'The process grid is a bijection and its communicators are consistent',
  'For every communicator size, grid shape and ordering, each rank of the grid gets a distinct two-dimensional index that agrees with the ordering, ranks outside the grid are empty, and row, column and full communicators contain exactly the corresponding ranks in index order. The rank of an index in the full communicator and the index of a rank are inverse. Round-robin selection of the communicators cycles through all of them in the same order on every rank.',
  ['configurations', 'schedules', 'histories'],
  'all communicator sizes, grid shapes, orderings and pipeline counts up to the bound; all sequences of pipeline requests and clones up to the depth bound',
  'The test is fixed to 6 ranks and needs pika, which is absent here.',
  [I+'communication/communicator_grid.h', S+'communication/communicator_grid.cpp', I+'common/round_robin.h', I+'communication/communicator_pipeline.h'],
  [('CommunicatorGrid', S+'communication/communicator_grid.cpp'), ('RoundRobin', I+'common/round_robin.h')])

p('P11', 'A pipeline serialises accesses in request order under all schedules',
  'Exclusive accesses requested from a pipeline are granted one at a time in the order of the requests; shared accesses requested consecutively may overlap each other but never an exclusive one. This holds for every program mixing requests, dropped senders, sub-pipelines and pipeline destruction, and under every schedule every granted access completes (no lost wake-up).',
  ['schedules', 'programs'],
  'all programs of up to the depth bound over the pipeline operations, under all schedules up to the deviation bound',
  'test_pipeline samples single schedules of fixed programs and cannot be built here.',
  [I+'common/pipeline.h'],
  [('Pipeline', I+'common/pipeline.h')])

p('P12', 'Matrix tiles obey program order of reads and writes under all schedules',
  'For every program of read and read-write requests on the tiles of a matrix, its const view, its sub-pipelines and its sub-tiles, the observed value of each access equals the sequential execution of the program, whatever the schedule. Concurrent reads may overlap, writes are exclusive, and done marks or destruction never block or lose an access; a tile marked as done cannot be accessed any more.',
  ['schedules', 'programs'],
  'all programs up to the depth bound over the tile operations, under all schedules up to the deviation bound',
  'Unit tests run fixed request sequences once and need pika.',
  [I+'matrix/matrix.h', I+'matrix/internal/tile_pipeline.h', I+'matrix/tile.h', I+'matrix/matrix_base.h'],
  [('TilePipeline', I+'matrix/internal/tile_pipeline.h'), ('Matrix::read/readwrite', I+'matrix/matrix.h'), ('splitTile', I+'matrix/tile.h')])

p('P13', 'Retiled and sub-matrix views alias exactly the right elements, in order',
  'A retiled view of a matrix and a reference to a sub-matrix give access to exactly the elements of the underlying matrix they stand for, for every divisor tile size, origin and extent. Accesses through the view are ordered with earlier and later accesses to the original matrix under every schedule, and the original is usable again once the view is finished.',
  ['inputs', 'schedules', 'programs'],
  'all shapes, retile factors, sub-ranges and short access programs up to the bound under all schedules up to the deviation bound',
  'Tests sample some sizes and one schedule.',
  [I+'matrix/internal/tile_pipeline.h', I+'matrix/matrix.h', I+'matrix/matrix_ref.h', I+'matrix/views.h'],
  [('retileSubPipeline', I+'matrix/matrix.h'), ('MatrixRef', I+'matrix/matrix_ref.h'), ('SubMatrixView/SubPanelView', I+'matrix/views.h')])

p('P14', 'Panels map local slots to the right tiles of the right rank',
  'A panel of any orientation and storage, over any distribution, range and sub-range restarts, exposes for each covered position a tile with the extent of the corresponding matrix tile along the panel and the configured width across it (by default the block size), stored either in its own workspace or in the linked external tile. Ranges outside of the panel, changes of range or width while the panel is in use, accesses outside of the range and conflicting uses of a tile as workspace and link are refused. Broadcasting a panel along rows or columns, including the transposed variant, leaves in every needed position of every rank exactly the root content.',
  ['configurations', 'schedules', 'histories'],
  'all distributions, ranges, widths, set/reset sequences and grid shapes up to the bound, under all schedules up to the deviation bound',
  'Tests sample a few shapes on a fixed 6 rank grid and need pika.',
  [I+'matrix/panel.h', I+'communication/broadcast_panel.h'],
  [('Panel', I+'matrix/panel.h'), ('broadcast', I+'communication/broadcast_panel.h')])

p('P15', 'Matrix allocations place every tile in bounds without overlap',
  'For every distribution and allocation layout, each local tile is stored inside the allocation with its column-major leading dimension, no two tiles share an element, and the layout facts reported for the matrix are true of the actual addresses. Column-major memory passed by the user is accessed at exactly the addresses the layout prescribes.',
  ['inputs', 'configurations'],
  'all local distributions, layouts and leading dimensions up to the bound',
  'Tests list a few layouts; overlap is only visible for specific combinations.',
  [I+'matrix/allocation.h', I+'matrix/col_major_layout.h', I+'matrix/matrix_base.h', I+'matrix/matrix.h', I+'matrix/create_matrix.h', I+'matrix/check_allocation.h'],
  [('AllocationLayout/internal layouts', I+'matrix/allocation.h'), ('ColMajorLayout', I+'matrix/col_major_layout.h')])

p('P16', 'Asynchronous communication completes correctly under every MPI behaviour',
  'Point-to-point, broadcast, reduce and all-reduce operations on tiles deliver exactly the prescribed values on every rank, the communication buffer stays valid until the operation has completed, and collective calls are issued in the same order on all ranks of a communicator. No execution deadlocks, whether MPI buffers messages or waits for the peer, and whatever the order of task execution and completion.',
  ['schedules', 'configurations'],
  'all kernel/layout/root/rank-count combinations up to the bound, under all MPI completion behaviours and all task schedules up to the deviation bound',
  'Existing tests run one real MPI and one schedule, and need pika.',
  [I+'communication/kernels', S+'communication/kernels', I+'sender/transform_mpi.h', I+'sender/with_temporary_tile.h'],
  [('all_reduce/reduce/broadcast/p2p/p2p_allsum', S+'communication/kernels'), ('withTemporaryTile', I+'sender/with_temporary_tile.h'), ('transformMPI', I+'sender/transform_mpi.h')])

p('P17', 'Matrix copies reproduce the source, across different distributions',
  'Copying a matrix, locally or between two different distributions of the same global matrix over the same process grid, makes the destination element-wise equal to the source and changes nothing else. This holds for every pair of compatible tile and block sizes, source ranks and grid shapes, and for every schedule and message completion order.',
  ['configurations', 'schedules'],
  'all pairs of distributions and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound',
  'The test has a few pairs on one grid; messages overtaking each other depend on the schedule.',
  [I+'matrix/copy.h', I+'matrix/copy_tile.h'],
  [('copy', I+'matrix/copy.h')])

p('P18', 'Cholesky factorisation is correct on every grid and schedule',
  'For every Hermitian positive definite matrix, either triangle and any distribution, the factorisation writes a triangular factor whose product with its conjugate transpose is the input, and leaves the other triangle untouched. Local and distributed runs agree, and the result is bitwise independent of the order in which tasks and messages are executed; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, tile sizes, grids and source ranks up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection on every execution',
  'Tests run one schedule on a six-rank grid and need pika and a multi-rank machine.',
  [I+'factorization/cholesky/impl.h', I+'factorization/cholesky.h'],
  [('Cholesky::call_L/call_U', I+'factorization/cholesky/impl.h')])

p('P19', 'Triangular solve is correct on every grid and schedule',
  'For every well-conditioned triangular matrix and right-hand side, side, triangle, transposition and diagonal kind, the solver overwrites the right-hand side with the solution of the triangular system and does not modify the triangular matrix. The result is independent of grid, source rank and the order of tasks and messages; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all option combinations, sizes, tile sizes and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection on every execution',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'solver/triangular/impl.h', I+'solver/triangular.h'],
  [('Triangular::call_*', I+'solver/triangular/impl.h')])

p('P20', 'Matrix multiplications are correct on every grid and schedule',
  'Triangular, Hermitian and general sub-matrix multiplication write exactly the product prescribed by their options into the output, read only the referenced triangle, and leave everything outside the output range unchanged. The result is independent of grid, source rank and the order of tasks and messages; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all option combinations, sizes, sub-ranges and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection on every execution',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'multiplication/triangular/impl.h', I+'multiplication/hermitian/impl.h', I+'multiplication/general/impl.h'],
  [('triangular_multiplication', I+'multiplication/triangular.h'), ('hermitian_multiplication', I+'multiplication/hermitian.h'), ('GeneralSub', I+'multiplication/general/impl.h')])

p('P21', 'Triangular and Cholesky-based inverses are correct on every schedule',
  'Inverting a triangular matrix in place yields its inverse in the stored triangle; inverting from a Cholesky factor yields the inverse of the factored matrix in the stored triangle. The opposite triangle is untouched and the result is independent of grid, source rank and schedule; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, tile sizes, triangles, diagonal kinds and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'inverse/triangular/impl.h', I+'inverse/cholesky/impl.h'],
  [('triangular inverse', I+'inverse/triangular/impl.h'), ('AssembleCholeskyInverse', I+'inverse/cholesky')])

p('P22', 'Reduction of the generalized problem to standard form is correct',
  'For a Hermitian matrix and a Cholesky factor stored in the same triangle, the reduction writes the transformed Hermitian matrix of the equivalent standard problem in the stored triangle and does not touch the factor or the opposite triangle. The result is independent of grid, source rank and schedule; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, tile sizes, triangles and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'eigensolver/gen_to_std/impl.h'],
  [('GenToStd::call_L/call_U', I+'eigensolver/gen_to_std/impl.h')])

p('P23', 'Reduction to band form and its back-transformation are correct',
  'Reducing a Hermitian matrix to any admissible band width yields a band matrix unitarily similar to the input, with reflectors and scalars that reproduce the transformation; applying the back-transformation to any matrix multiplies by exactly that unitary transformation. The result is independent of the grid up to rounding and of the schedule exactly; no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, tile sizes, band sizes and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'eigensolver/reduction_to_band/impl.h', I+'eigensolver/bt_reduction_to_band/impl.h', I+'factorization/qr'],
  [('ReductionToBand', I+'eigensolver/reduction_to_band/impl.h'), ('BackTransformationReductionToBand', I+'eigensolver/bt_reduction_to_band/impl.h'), ('QR_Tfactor', I+'factorization/qr')])

p('P24', 'Band to tridiagonal reduction and its back-transformation are correct',
  'Reducing a Hermitian band matrix yields a real tridiagonal matrix unitarily similar to it and reflectors from which the back-transformation applies exactly that transformation to any matrix. The concurrent sweeps never overtake or race each other and every execution terminates, for every number of worker threads, rank grid and band width.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, band widths, worker counts and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound, with data-race detection',
  'The sweeps synchronise through hand-written semaphores and point-to-point messages; tests sample one schedule.',
  [I+'eigensolver/band_to_tridiag/mc.h', I+'eigensolver/bt_band_to_tridiag/impl.h'],
  [('SweepWorker/SweepWorkerDist', I+'eigensolver/band_to_tridiag/mc.h'), ('bt_band_to_tridiag', I+'eigensolver/bt_band_to_tridiag/impl.h')])

p('P25', 'The tridiagonal divide-and-conquer solver is correct',
  'For every real symmetric tridiagonal matrix, including deflating, zero, constant and repeated spectra, the solver returns all eigenvalues in ascending order and an orthonormal set of matching eigenvectors. The result does not depend on the schedule, and no execution deadlocks for any tile size, worker count and grid.',
  ['schedules', 'configurations', 'inputs'],
  'all tridiagonal matrices with entries from a small adversarial set up to the size bound, all tile sizes and grids, under all schedules up to the deviation bound with data-race detection',
  'Tests use the Laplacian and random matrices; deflation patterns and sorting corner cases form a combinatorial space.',
  [I+'eigensolver/tridiag_solver/impl.h', I+'eigensolver/tridiag_solver/merge.h', I+'eigensolver/tridiag_solver/kernels.h', I+'eigensolver/tridiag_solver/rot.h'],
  [('mergeSubproblems/mergeDistSubproblems', I+'eigensolver/tridiag_solver/merge.h')])

p('P26', 'Eigensolvers return the requested eigenpairs on every grid and schedule',
  'For every Hermitian matrix (and Hermitian-definite pair, factorized or not) given by its lower triangle and every number of lowest eigenpairs that is requested, the standard and generalized eigensolvers return ascending eigenvalues and (B-)orthonormal eigenvectors satisfying the eigen-equation for exactly the requested part of the spectrum, in matrices of the caller or in returned ones, and leave the upper triangles and an already factorized second matrix unchanged. The result is independent of the schedule, agrees between grids up to rounding, and no execution deadlocks.',
  ['schedules', 'configurations', 'inputs'],
  'all sizes, tile sizes, ranges, source ranks and grids up to the bound under all schedules and MPI behaviours up to the deviation bound, with data-race detection',
  'Tests run one schedule on a six-rank grid and need pika.',
  [I+'eigensolver/eigensolver/impl.h', I+'eigensolver/gen_eigensolver/impl.h', I+'eigensolver/eigensolver.h', I+'eigensolver/gen_eigensolver.h'],
  [('Eigensolver::call', I+'eigensolver/eigensolver/impl.h'), ('GenEigensolver::call', I+'eigensolver/gen_eigensolver/impl.h')])

p('P27', 'Row and column permutations place every element exactly once',
  'Permuting rows or columns of any tile-aligned range of a matrix by any permutation puts each element in its prescribed position and changes nothing outside the range, locally and distributed over any grid. The result is independent of the schedule and no execution deadlocks.',
  ['inputs', 'schedules', 'configurations'],
  'all permutations up to the bound, all tile sizes, ranges and grids up to the bound, under all schedules and MPI behaviours up to the deviation bound',
  'Tests use a reversal and a few fixed permutations.',
  [I+'permutations/general/impl.h', S+'permutations/general', I+'permutations/general/perms.h'],
  [('Permutations::call', I+'permutations/general/impl.h'), ('applyPermutations', I+'permutations/general/perms.h')])

p('P28', 'The max norm is the maximum absolute value of the referenced elements',
  'The max-norm computation returns on the designated rank exactly the largest absolute value over the elements of the referenced part of the matrix (whole, or one triangle including the diagonal), for every shape, distribution and position of the maximum. It returns zero for empty matrices and does not modify the matrix.',
  ['inputs', 'configurations', 'schedules'],
  'all shapes, tile sizes, grids, result ranks and positions of the maximum up to the bound, under all schedules up to the deviation bound',
  'Tests place the maximum at a few positions on one grid.',
  [I+'auxiliary/norm/mc.h', I+'auxiliary/norm.h'],
  [('Norm::max_*', I+'auxiliary/norm/mc.h')])

p('P29', 'C API grids and descriptors behave like a registry under any history',
  'Every sequence of creating, using and freeing process grids through the C interface hands out distinct live handles, maps each handle to the communicator and ordering it was created with, and releases its communicators when it is freed. Descriptors with equal source processes are accepted and translated to exactly the matching distribution, invalid ones are rejected.',
  ['histories', 'inputs'],
  'all operation sequences up to the depth bound over the grid operations, and all descriptor tuples up to the bound',
  'Tests create one grid and one descriptor.',
  [S+'c_api/grid.cpp', S+'c_api/utils.cpp', S+'c_api/utils.h', S+'c_api/init.cpp'],
  [('dlaf_create_grid/dlaf_free_grid', S+'c_api/grid.cpp'), ('make_dlaf_descriptor', S+'c_api/utils.cpp')])

p('P30', 'Configuration follows the documented precedence and lifecycle',
  'Each configuration parameter takes its value from the command line if given there, otherwise from the environment, otherwise from the user configuration, otherwise from the default. Initialisation and finalisation can be repeated, every initialise/finalise history leaves no resource behind, and values that cannot be parsed (unknown layout or boolean names, text where a number is expected) are rejected.',
  ['configurations', 'histories'],
  'all combinations of the sources for every parameter, and all initialise/finalise histories up to the depth bound',
  'Tests check single parameters from single sources.',
  [S+'init.cpp', I+'init.h', I+'tune.h', S+'tune.cpp'],
  [('updateConfiguration', S+'init.cpp'), ('initialize/finalize/ScopedInitializer', S+'init.cpp')])

p('P31', 'Temporary tiles are used and copied back exactly as requested',
  'An operation run through a temporary tile sees a tile with the content of the original exactly when copying in was requested, its result is visible in the original exactly when copying back was requested, and the original is kept alive until the operation completes. A contiguous tile is used directly when that is allowed, and all temporary memory is released.',
  ['inputs', 'schedules'],
  'all combinations of copy policies, contiguity requirements and tile layouts under all schedules up to the deviation bound',
  'Tests sample each policy under one schedule and need pika.',
  [I+'sender/with_temporary_tile.h', I+'matrix/copy_tile.h', S+'communication/kernels'],
  [('withTemporaryTile', I+'sender/with_temporary_tile.h')])

p('P32', 'Deflation column types and workspace indices partition the columns',
  'When columns are sorted by type after deflation, the resulting index is a permutation, groups each type contiguously in the prescribed order, keeps the relative order inside each group, and the reported counts, offsets and inverse mappings agree with it. Ranges derived from these counts cover exactly the non-deflated columns.',
  ['inputs'],
  'all type assignments up to the length bound and all tile/rank splits of them',
  'Tests list a handful of type sequences; the space is exponential.',
  [I+'eigensolver/tridiag_solver/coltype.h', I+'eigensolver/tridiag_solver/kernels.h', I+'eigensolver/tridiag_solver/merge.h', I+'eigensolver/tridiag_solver/index_manipulation.h'],
  [('ColType', I+'eigensolver/tridiag_solver/coltype.h'), ('stablePartitionIndexForDeflation', I+'eigensolver/tridiag_solver/merge.h')])

p('P33', 'Memory chunks and views keep memory alive and release it once',
  'Memory owned by a chunk is released exactly once and only after the last view of it is gone, borrowed memory is never released, and moved-from objects are empty. A view of a view covers exactly the requested elements of the original memory, for every history of copies, moves and sub-views.',
  ['histories', 'inputs'],
  'all operation sequences up to the depth bound over chunks and views, all offset/size pairs up to the bound',
  'Tests exercise each operation once.',
  [I+'memory/memory_chunk.h', I+'memory/memory_view.h', S+'memory'],
  [('MemoryChunk', I+'memory/memory_chunk.h'), ('MemoryView', I+'memory/memory_view.h')])

p('P34', 'Single-threaded BLAS scopes restore the thread setting for all histories',
  'While at least one single-threaded scope is alive the BLAS and OpenMP thread count is one, and when a scope ends the setting that was in force when it began is restored. This holds for every nesting and every previous setting.',
  ['histories', 'configurations'],
  'all nestings up to the depth bound interleaved with changes of the thread count',
  'The test checks one scope with one setting.',
  [I+'common/single_threaded_blas.h', S+'common/single_threaded_blas.cpp'],
  [('SingleThreadedBlasScope', S+'common/single_threaded_blas.cpp')])

p('P35', 'Tile sub-references alias the parent and order their lifetimes',
  'A tile, its const view and all its sub-tiles refer to exactly the elements of the parent at the requested origin and size, with the leading dimension of the parent. The next access to the parent is granted only after all sub-tiles have been released, under every order of release.',
  ['inputs', 'schedules', 'histories'],
  'all tile sizes, origins and extents up to the bound, all release orders of up to four sub-tiles',
  'Tests use single shapes and one release order.',
  [I+'matrix/tile.h', S+'matrix/tile.cpp'],
  [('Tile/createSubTile/splitTileDisjoint', I+'matrix/tile.h')])

p('P36', 'Public algorithm entry points reject invalid arguments',
  'Every public algorithm refuses, by the documented assertion and before modifying its arguments, matrices that are not square, not of matching size, not equally distributed, or stored on a different grid, and index ranges outside the spectrum. Valid arguments never trigger an assertion.',
  ['inputs', 'configurations'],
  'for each entry point, all single- and two-fold deviations from a valid call drawn from the argument alphabet',
  'Only a few death tests exist; a dropped precondition is silent until memory is corrupted.',
  [I+'util_matrix.h', I+'factorization/cholesky.h', I+'solver/triangular.h', I+'eigensolver/eigensolver.h', I+'multiplication', I+'inverse', I+'permutations/general.h'],
  [('DLAF_ASSERT preconditions', I+'common/assert.h')])

p('P37', 'Printed matrices represent exactly the element values',
  'Printing a tile, a matrix or a reference to a part of a matrix in the numpy format gives Python statements that, executed for the outputs of all ranks, build an array of the same shape in which every element is printed exactly once, by the rank that owns it, at its global position, with its value up to the printed digits, for every distribution, tile and leading dimension and for all values including infinities and NaN. The csv format gives the rows of a tile or local matrix in order, all elements of a row on one line. The printed values are those of all the accesses posted before the print and of none posted after it.',
  ['inputs', 'configurations', 'schedules'],
  'all tile shapes and leading dimensions, all values of an alphabet of special values, all distributions and sub-matrices up to the bound',
  'Tests print one 3x2 tile and one matrix; values that are not finite, offsets and tiles per block are never printed.',
  [I+'matrix/print_numpy.h', I+'matrix/print_csv.h'],
  [('print(format::numpy, ...)', I+'matrix/print_numpy.h'), ('numpy_value', I+'matrix/print_numpy.h'), ('print(format::csv, ...)', I+'matrix/print_csv.h')])

p('P38', 'GPU execution gives the same results as CPU execution',
  'Running any algorithm with the GPU backend gives the result of the CPU backend up to rounding, and device memory is synchronised before it is reused.',
  ['inputs', 'schedules'],
  'all algorithms on GPU',
  'No GPU is available to the tests here.',
  [I+'gpu', S+'cusolver', I+'sender/policy.h'],
  [('GPU policies', I+'sender/policy.h')])

p('P39', 'C and ScaLAPACK solvers compute in the arrays of the caller',
  'Each function of the C and the ScaLAPACK interface for the inverse from a Cholesky factor and for the standard, generalized and factorized generalized eigensolver (whole or partial spectrum, every element type) leaves in the local arrays of all ranks what it is documented to compute of the global matrix, for every size, block size, source process, leading dimension, order of the grid and spelling of the triangle. It reports success, everything is there when the call returns, and nothing else in the arrays (padding, the other triangle, a given factor, values behind the eigenvalues) is changed.',
  ['inputs', 'configurations', 'schedules'],
  'all functions, sizes, block sizes, source ranks, paddings, orders and ranges up to the bound on grids up to 4 ranks, both MPI behaviours, schedules up to the deviation bound',
  'Tests call each function with one matrix on one grid and need pika.',
  [S+'c_api/eigensolver/eigensolver.h', S+'c_api/eigensolver/gen_eigensolver.h', S+'c_api/inverse/cholesky.h', S+'c_api/utils.h'],
  [('hermitian_eigensolver', S+'c_api/eigensolver/eigensolver.h'), ('pxhegvd', S+'c_api/eigensolver/gen_eigensolver.h'), ('inverse_from_cholesky_factor', S+'c_api/inverse/cholesky.h')])

p('P40', 'Matrix setters give each element its value on every distribution',
  'The functions that set a matrix post work that gives every element the value of its global index: set() the value of the function (transposed or conjugated as requested), set_identity the identity, set0 zero for exactly the tiles of the given local range (or panel range) and nothing else. The random setters give values that depend only on the matrix and tile size and not on the grid, source rank or tiles per block; absolute values are at most one; the Hermitian, banded and positive definite ones are exactly Hermitian with a real diagonal, zero outside of the band, and strictly diagonally dominant respectively; the one with a non-zero diagonal keeps its diagonal away from zero. They are ordered with the other accesses to the matrix.',
  ['inputs', 'configurations', 'schedules'],
  'all setters, sizes, tile sizes, tiles per block, bands, grids, source ranks and element types up to the bound',
  'Tests check a few of these setters on fixed shapes and never compare distributions; all other tests trust them for their inputs.',
  [I+'util_matrix.h'],
  [('set/set_identity/set0/set_random*', I+'util_matrix.h'), ('set_diagonal_tile/set_lower_and_upper_tile', I+'util_matrix.h')])

p('P41', 'Tile operations compute what they document, in the documented place only',
  'Every BLAS- and LAPACK-like operation on tiles (products, triangular products and solves, rank-k and rank-2k updates, additions and scalings, copies of tiles and of regions, norms, setting, Cholesky factor, triangular inverse, assembly of an inverse, reduction to standard form, tridiagonal eigensolver) computes the documented result for every combination of its flags, operand shapes (empty ones included), scaling factors and leading dimensions. Operands that the flags exclude (the other triangle, a unit diagonal, the result when it is scaled by zero, the workspace) are not read, nothing but the documented part of the output is written, failure codes name the first failing row, operands of shapes that do not fit are refused, and the direct call and the sender forms do the same.',
  ['inputs', 'configurations'],
  'all flags, shapes up to 4 (thorough: 6), packed and padded storage, factors 0/1/other, positions of failure, the four element types, four forms of calls',
  'Tests use a list of sizes and random flags and set every element of every operand, so a wrong read or write outside of the documented part is not seen.',
  [I+'blas/tile.h', I+'lapack/tile.h'],
  [('gemm/hemm/her2k/herk/trmm/trmm3/trsm', I+'blas/tile.h'), ('add/scal', I+'blas/tile_extensions.h'), ('lacpy/lange/lantr/laset/hegst/lauum/potrf/stedc/trtri', I+'lapack/tile.h'), ('lauum_workspace/trtri_workspace', I+'lapack/tile_extensions.h'), ('get*Sizes', I+'util_blas.h'), ('DLAF_MAKE_SENDER_ALGORITHM_OVERLOADS', I+'sender/make_sender_algorithm_overloads.h')])

p('P42', 'Operations on senders run once, on the values sent, and then release them',
  'For every list of arguments (values, references, read-only and read-write accesses, accesses shared with others, and plain values that get lifted) and every way to apply an operation to them (lazily or fire-and-forget, called or piped, given a callable or a named tile operation), the operation is called exactly once, only after it has been started and all values have arrived, with the values sent, wrapped resources being passed as references to the resource with the constness of the access. Later accesses are held back until the operation has returned, and are granted, with all values destroyed, by the time the continuation runs. The result or an exception is passed on to the consumer. The blocking form returns only after completion.',
  ['schedules', 'programs'],
  'all argument lists up to two (some of three) of seven kinds, nine forms, with and without exception, three policies, all schedules',
  'Unit tests look at a few argument lists and cannot see an argument that is released too late or too early, as that depends on the schedule.',
  [I+'sender/transform.h', I+'common/consume_rvalues.h', I+'common/unwrap.h'],
  [('transform/transformDetach/transformLift/PartialTransform', I+'sender/transform.h'), ('whenAllLift', I+'sender/when_all_lift.h'), ('Unwrapping', I+'common/unwrap.h'), ('ConsumeRvalues', I+'common/consume_rvalues.h'), ('DLAF_MAKE_SENDER_ALGORITHM_OVERLOADS', I+'sender/make_sender_algorithm_overloads.h')])

p('P43', 'Tune parameters never change results, for every value users may set',
  'For every combination of values of the tune parameters (the minimum band size, the base of the 1D block size, the group size of reflectors, the numbers of threads, the default layout of matrices, the number of pipelines of a grid, busy waiting) the eigensolvers return correct eigenpairs. The band is the smallest divisor of the block size that is not less than the minimum. The 1D block is the largest multiple of the block size that is not larger than the base, but at least one block. The number of workers is at least one and within the limits given by the parameter and the available threads.',
  ['configurations', 'inputs'],
  'all combinations of listed values for all sizes, block sizes and grids within the bound; derived sizes for all block sizes and values up to the bound',
  'Tests run with the defaults, or change one parameter to one other value.',
  [I+'tune.h', I+'eigensolver/internal/get_band_size.h', I+'eigensolver/internal/get_1d_block_size.h', I+'eigensolver/tridiag_solver/impl.h'],
  [('TuneParameters', I+'tune.h'), ('getBandSize', I+'eigensolver/internal/get_band_size.h'), ('get1DBlockSize', I+'eigensolver/internal/get_1d_block_size.h'), ('get_tridiag_rank1_num_workers', I+'eigensolver/internal/get_tridiag_rank1_nworkers.h'), ('get_red2band_panel_num_workers', I+'eigensolver/internal/get_red2band_panel_nworkers.h')])

p('P44', 'Miniapps run what their options ask for, and approve right results only',
  'For every grid, size, block size, element type, part of the spectrum and combination of options, the miniapps of all algorithms finish on all ranks and return success. They report each requested run (and no warm-up run) once, with the parameters that were used, CSV data only if asked for and as pairs of unique titles and values, and a verdict for exactly the runs whose results are to be checked. The verdict (of the Cholesky factorization and of the eigensolvers) is an error if and only if the results are wrong: a single wrong element of the factor, of an eigenvector or of an eigenvalue of the requested part is enough, results that are not numbers are wrong, and what lies outside of the results does not matter. Sizes for which results cannot be checked are announced instead. Options with invalid values are refused before any work starts.',
  ['configurations', 'inputs', 'schedules'],
  'all combinations of the listed options for all sizes, block sizes and grids within the bound; every element of the results replaced in turn; all one-character and listed spellings of the options',
  'The miniapps are programs outside of the test suite; their result check is only ever seen to approve right results.',
  ['miniapp/miniapp_cholesky.cpp', 'miniapp/miniapp_eigensolver.cpp', 'miniapp/miniapp_gen_eigensolver.cpp', 'miniapp/miniapp_triangular_solver.cpp', 'miniapp/miniapp_triangular_multiplication.cpp', 'miniapp/miniapp_redistribution.cpp', 'miniapp/include/dlaf/miniapp/options.h', 'miniapp/include/dlaf/miniapp/dispatch.h', 'miniapp/include/dlaf/miniapp/scale_eigenvectors.h'],
  [('check_cholesky/cholesky_diff', 'miniapp/miniapp_cholesky.cpp'), ('checkEigensolver', 'miniapp/miniapp_eigensolver.cpp'), ('checkGenEigensolver', 'miniapp/miniapp_gen_eigensolver.cpp'), ('MiniappOptions', 'miniapp/include/dlaf/miniapp/options.h'), ('scaleEigenvectors', 'miniapp/include/dlaf/miniapp/scale_eigenvectors.h')])

p('P45', 'HDF5 files hold the matrices written, and reads restore them on any distribution',
  'A matrix that FileHDF5 writes is stored element by element: the data set has the size and type of the matrix (columns, rows, real and imaginary parts), every element is written exactly once, by whichever rank owns it (by one rank if the matrix is local), with the value that the operations scheduled before the write gave it, independently of those scheduled later. Reading the data set gives a local or distributed matrix with the requested blocks, grid and source rank and the same elements, whatever the distribution, tiles and memory layout of the writer were. Parallel files are created, and their data sets defined, collectively and in the same way on all ranks, whether or not assertions are compiled in. With the debug dump of an algorithm enabled (distributed Cholesky, inverses, reduction to standard form, reduction to band form, band to tridiagonal, tridiagonal solver, eigensolvers; the lower variants), every call writes a file of its own that holds its inputs as they were before and its outputs as they are after the call, on all ranks, for all sizes including matrices of a single tile; the call terminates on every schedule and its results do not depend on the dump.',
  ['configurations', 'inputs', 'schedules', 'histories of two calls'],
  'all sizes, tiles, blocks, grids and source ranks of writer and reader within the bound, for all kinds of files and element types; pairs of dumped calls of every algorithm, under all schedules of the bound',
  'HDF5 support is not compiled into the tests that run, and the upstream tests use one matrix and never enable a dump.',
  ['include/dlaf/matrix/hdf5.h', 'src/matrix/hdf5.cpp', 'include/dlaf/factorization/cholesky/impl.h', 'include/dlaf/inverse/cholesky/impl.h', 'include/dlaf/inverse/triangular/impl.h', 'include/dlaf/eigensolver/gen_to_std/impl.h', 'include/dlaf/eigensolver/reduction_to_band/impl.h', 'include/dlaf/eigensolver/band_to_tridiag/mc.h', 'include/dlaf/eigensolver/tridiag_solver/impl.h', 'include/dlaf/eigensolver/eigensolver/impl.h', 'include/dlaf/eigensolver/gen_eigensolver/impl.h'],
  [('FileHDF5', 'include/dlaf/matrix/hdf5.h'), ('for_each_local_map_with_dataset', 'include/dlaf/matrix/hdf5.h'), ('GenToStd::call_L', 'include/dlaf/eigensolver/gen_to_std/impl.h'), ('TridiagSolver::call', 'include/dlaf/eigensolver/tridiag_solver/impl.h')])

out = os.path.join(os.path.dirname(__file__), '..', 'properties.jsonl')
with open(out, 'w') as f:
    for d in P:
        f.write(json.dumps(d) + '\n')
print(len(P), 'properties')
