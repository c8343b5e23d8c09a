// P44: the miniapp of the gen_eigensolver
#include "p44_pre.hpp"

#include <filesystem>
#include <limits>
#include <optional>

#include <dlaf/auxiliary/norm.h>
#include <dlaf/eigensolver/eigensolver.h>
#include <dlaf/eigensolver/gen_eigensolver.h>
#include <dlaf/matrix/copy.h>
#include <dlaf/matrix/matrix_mirror.h>
#include <dlaf/matrix/matrix_ref.h>
#include <dlaf/miniapp/dispatch.h>
#include <dlaf/miniapp/scale_eigenvectors.h>
#include <dlaf/multiplication/hermitian.h>
#include <dlaf/util_matrix.h>
#include <dlaf/util_math.h>

#include "p44_run.hpp"

namespace dlaf {
template <Backend B, class T, Device D>
auto p44_hermitian_generalized_eigensolver(blas::Uplo uplo, Matrix<T, D>& a, Matrix<T, D>& b, SizeType begin, SizeType end) {
  auto r = hermitian_generalized_eigensolver<B>(uplo, a, b, begin, end);
  p44::corrupt(r.eigenvectors, 1);
  p44::corrupt(r.eigenvalues, 2);
  return r;
}
template <Backend B, class T, Device D>
auto p44_hermitian_generalized_eigensolver(comm::CommunicatorGrid& grid, blas::Uplo uplo, Matrix<T, D>& a, Matrix<T, D>& b, SizeType begin, SizeType end) {
  auto r = hermitian_generalized_eigensolver<B>(grid, uplo, a, b, begin, end);
  p44::corrupt(r.eigenvectors, 1);
  p44::corrupt(r.eigenvalues, 2);
  return r;
}
}
#define hermitian_generalized_eigensolver p44_hermitian_generalized_eigensolver
#define pika_main pika_main_gen_eigensolver
#define main p44_main_gen_eigensolver
#include "../miniapp/miniapp_gen_eigensolver.cpp"
