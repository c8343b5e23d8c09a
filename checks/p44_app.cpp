// P44: a miniapp without check of its results (P44_FILE, P44_NAME)
#include "p44_pre.hpp"

#include <dlaf/auxiliary/norm.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/eigensolver/band_to_tridiag.h>
#include <dlaf/eigensolver/bt_band_to_tridiag.h>
#include <dlaf/eigensolver/bt_reduction_to_band.h>
#include <dlaf/eigensolver/gen_to_std.h>
#include <dlaf/eigensolver/reduction_to_band.h>
#include <dlaf/eigensolver/tridiag_solver.h>
#include <dlaf/inverse/cholesky.h>
#include <dlaf/inverse/triangular.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/multiplication/triangular.h>
#include <dlaf/solver/triangular.h>
#include <dlaf/util_matrix.h>

#include "p44_run.hpp"

#define CAT_(a, b) a##b
#define CAT(a, b) CAT_(a, b)
#define pika_main CAT(pika_main_, P44_NAME)
#define main CAT(p44_main_, P44_NAME)
#include P44_FILE
