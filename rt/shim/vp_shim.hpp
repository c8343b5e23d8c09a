// Force-included when DLA-Future is compiled against the older blaspp/lapackpp installed here: the two
// functions of newer releases that it uses.
#pragma once
#ifdef __cplusplus
#include <string>
#include <blas/util.hh>
#include <lapack/util.hh>
namespace blas {
inline void from_string(std::string const& s, blas::Uplo* u) {
  *u = char2uplo(s.empty() ? '?' : s[0]);
}
}
namespace lapack {
inline const char* to_c_string(lapack::MatrixType m) {
  return matrixtype2str(m);
}
}
#endif
