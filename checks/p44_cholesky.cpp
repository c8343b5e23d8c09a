// P44: the miniapp of the Cholesky factorization
#include "p44_pre.hpp"

#include <limits>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/communication/sync/basic.h>
#include <dlaf/factorization/cholesky.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/index.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/miniapp/dispatch.h>
#include <dlaf/util_matrix.h>

#include "p44_run.hpp"

namespace dlaf {
template <Backend B, Device D, class T>
void p44_cholesky_factorization(blas::Uplo uplo, Matrix<T, D>& mat) {
  cholesky_factorization<B, D, T>(uplo, mat);
  p44::corrupt(mat, 1);
}
template <Backend B, Device D, class T>
void p44_cholesky_factorization(comm::CommunicatorGrid& grid, blas::Uplo uplo, Matrix<T, D>& mat) {
  cholesky_factorization<B, D, T>(grid, uplo, mat);
  p44::corrupt(mat, 1);
}
}
#define cholesky_factorization p44_cholesky_factorization
#define pika_main pika_main_cholesky
#define main p44_main_cholesky
#include "../miniapp/miniapp_cholesky.cpp"
