// BLAS/LAPACK calls of the code under test, announced to the race detector (the libraries themselves are not
// instrumented) and passed on to the real functions.
#include <algorithm>
#include <complex>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <dlfcn.h>

#include <vp/hb.hpp>

namespace {
using c64 = std::complex<float>;
using c128 = std::complex<double>;
using L = long;

template <class F>
F next(F, const char* name) {
  void* p = dlsym(RTLD_NEXT, name);
  if (!p) {
    std::fprintf(stderr, "BLAS function %s not found\n", name);
    std::abort();
  }
  return reinterpret_cast<F>(p);
}

// only the outermost call is announced: the libraries call these functions themselves, too
thread_local int depth = 0;
struct Call {
  Call() {
    ++depth;
  }
  ~Call() {
    --depth;
  }
  bool on() const {
    return depth == 1 && vp::hb_on;
  }
};

bool is(const char* c, char x) {
  return (*c & ~32) == (x & ~32);
}
template <class T>
void vec(const T* p, L n, L inc, bool w) {
  if (n <= 0)
    return;
  if (inc == 1)
    return vp::hb_mem(p, size_t(n) * sizeof(T), w, "BLAS");
  for (L i = 0; i < n; ++i)
    vp::hb_mem(p + i * std::abs(inc), sizeof(T), w, "BLAS");
}
template <class T>
void mat(const T* p, L m, L n, L ld, bool w) {
  if (m > 0)
    for (L j = 0; j < n; ++j)
      vp::hb_mem(p + j * ld, size_t(m) * sizeof(T), w, "BLAS");
}
// uplo: U, L or anything else (everything); unit: without the diagonal
template <class T>
void tri(const char* uplo, bool unit, const T* p, L m, L n, L ld, bool w) {
  for (L j = 0; j < n; ++j) {
    L b = 0, e = m;
    if (is(uplo, 'U'))
      e = std::min(m, j + !unit);
    else if (is(uplo, 'L'))
      b = j + unit;
    if (b < e)
      vp::hb_mem(p + b + j * ld, size_t(e - b) * sizeof(T), w, "BLAS");
  }
}
template <class T>
bool zero(const T* x) {
  return *x == T(0);
}
}

// hidden lengths of character arguments are passed on whether there are any or not
#define HID size_t h1, size_t h2, size_t h3, size_t h4
#define HIDA h1, h2, h3, h4
#define NEXT(name) static auto f = next(&name, #name); Call c_

#define GEMM(N, T)                                                                                                                                        \
  void N(const char* ta, const char* tb, const int* m, const int* n, const int* k, const T* al, const T* a, const int* lda, const T* b, const int* ldb,     \
         const T* be, T* c, const int* ldc, HID) {                                                                                                        \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *m > 0 && *n > 0) {                                                                                                                    \
      if (!zero(al)) {                                                                                                                                    \
        is(ta, 'N') ? mat(a, *m, *k, *lda, false) : mat(a, *k, *m, *lda, false);                                                                          \
        is(tb, 'N') ? mat(b, *k, *n, *ldb, false) : mat(b, *n, *k, *ldb, false);                                                                          \
      }                                                                                                                                                   \
      mat(c, *m, *n, *ldc, true);                                                                                                                         \
    }                                                                                                                                                     \
    f(ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, HIDA);                                                                                             \
  }
#define HEMM(N, T)                                                                                                                                        \
  void N(const char* side, const char* uplo, const int* m, const int* n, const T* al, const T* a, const int* lda, const T* b, const int* ldb, const T* be, \
         T* c, const int* ldc, HID) {                                                                                                                     \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *m > 0 && *n > 0) {                                                                                                                    \
      const L k = is(side, 'L') ? *m : *n;                                                                                                                \
      tri(uplo, false, a, k, k, *lda, false);                                                                                                             \
      mat(b, *m, *n, *ldb, false);                                                                                                                        \
      mat(c, *m, *n, *ldc, true);                                                                                                                         \
    }                                                                                                                                                     \
    f(side, uplo, m, n, al, a, lda, b, ldb, be, c, ldc, HIDA);                                                                                            \
  }
#define HER2K(N, T, B)                                                                                                                                    \
  void N(const char* uplo, const char* tr, const int* n, const int* k, const T* al, const T* a, const int* lda, const T* b, const int* ldb, const B* be,   \
         T* c, const int* ldc, HID) {                                                                                                                     \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *n > 0) {                                                                                                                              \
      is(tr, 'N') ? mat(a, *n, *k, *lda, false) : mat(a, *k, *n, *lda, false);                                                                            \
      is(tr, 'N') ? mat(b, *n, *k, *ldb, false) : mat(b, *k, *n, *ldb, false);                                                                            \
      tri(uplo, false, c, *n, *n, *ldc, true);                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, tr, n, k, al, a, lda, b, ldb, be, c, ldc, HIDA);                                                                                              \
  }
#define HERK(N, T, B)                                                                                                                                     \
  void N(const char* uplo, const char* tr, const int* n, const int* k, const B* al, const T* a, const int* lda, const B* be, T* c, const int* ldc, HID) {   \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *n > 0) {                                                                                                                              \
      is(tr, 'N') ? mat(a, *n, *k, *lda, false) : mat(a, *k, *n, *lda, false);                                                                            \
      tri(uplo, false, c, *n, *n, *ldc, true);                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, tr, n, k, al, a, lda, be, c, ldc, HIDA);                                                                                                      \
  }
#define TRXM(N, T)                                                                                                                                        \
  void N(const char* side, const char* uplo, const char* ta, const char* diag, const int* m, const int* n, const T* al, const T* a, const int* lda, T* b,  \
         const int* ldb, HID) {                                                                                                                           \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *m > 0 && *n > 0) {                                                                                                                    \
      const L k = is(side, 'L') ? *m : *n;                                                                                                                \
      if (!zero(al))                                                                                                                                      \
        tri(uplo, is(diag, 'U'), a, k, k, *lda, false);                                                                                                   \
      mat(b, *m, *n, *ldb, true);                                                                                                                         \
    }                                                                                                                                                     \
    f(side, uplo, ta, diag, m, n, al, a, lda, b, ldb, HIDA);                                                                                              \
  }
#define GEMV(N, T)                                                                                                                                        \
  void N(const char* tr, const int* m, const int* n, const T* al, const T* a, const int* lda, const T* x, const int* incx, const T* be, T* y,              \
         const int* incy, HID) {                                                                                                                          \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *m > 0 && *n > 0) {                                                                                                                    \
      if (!zero(al)) {                                                                                                                                    \
        mat(a, *m, *n, *lda, false);                                                                                                                      \
        vec(x, is(tr, 'N') ? *n : *m, *incx, false);                                                                                                      \
      }                                                                                                                                                   \
      vec(y, is(tr, 'N') ? *m : *n, *incy, true);                                                                                                         \
    }                                                                                                                                                     \
    f(tr, m, n, al, a, lda, x, incx, be, y, incy, HIDA);                                                                                                  \
  }
#define GER(N, T)                                                                                                                                         \
  void N(const int* m, const int* n, const T* al, const T* x, const int* incx, const T* y, const int* incy, T* a, const int* lda) {                        \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *m > 0 && *n > 0 && !zero(al)) {                                                                                                       \
      vec(x, *m, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, false);                                                                                                                           \
      mat(a, *m, *n, *lda, true);                                                                                                                         \
    }                                                                                                                                                     \
    f(m, n, al, x, incx, y, incy, a, lda);                                                                                                                \
  }
#define HEMV(N, T)                                                                                                                                        \
  void N(const char* uplo, const int* n, const T* al, const T* a, const int* lda, const T* x, const int* incx, const T* be, T* y, const int* incy, HID) {   \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *n > 0) {                                                                                                                              \
      tri(uplo, false, a, *n, *n, *lda, false);                                                                                                           \
      vec(x, *n, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, true);                                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, n, al, a, lda, x, incx, be, y, incy, HIDA);                                                                                                   \
  }
#define HER2(N, T)                                                                                                                                        \
  void N(const char* uplo, const int* n, const T* al, const T* x, const int* incx, const T* y, const int* incy, T* a, const int* lda, HID) {               \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *n > 0 && !zero(al)) {                                                                                                                 \
      vec(x, *n, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, false);                                                                                                                           \
      tri(uplo, false, a, *n, *n, *lda, true);                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, n, al, x, incx, y, incy, a, lda, HIDA);                                                                                                       \
  }
#define TRMV(N, T)                                                                                                                                        \
  void N(const char* uplo, const char* tr, const char* diag, const int* n, const T* a, const int* lda, T* x, const int* incx, HID) {                       \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      tri(uplo, is(diag, 'U'), a, *n, *n, *lda, false);                                                                                                   \
      vec(x, *n, *incx, true);                                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, tr, diag, n, a, lda, x, incx, HIDA);                                                                                                          \
  }
#define AXPY(N, T)                                                                                                                                        \
  void N(const int* n, const T* al, const T* x, const int* incx, T* y, const int* incy) {                                                                  \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(x, *n, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, true);                                                                                                                            \
    }                                                                                                                                                     \
    f(n, al, x, incx, y, incy);                                                                                                                           \
  }
#define COPY(N, T)                                                                                                                                        \
  void N(const int* n, const T* x, const int* incx, T* y, const int* incy) {                                                                               \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(x, *n, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, true);                                                                                                                            \
    }                                                                                                                                                     \
    f(n, x, incx, y, incy);                                                                                                                               \
  }
#define SCAL(N, T, B)                                                                                                                                     \
  void N(const int* n, const B* al, T* x, const int* incx) {                                                                                               \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      vec(x, *n, *incx, true);                                                                                                                            \
    f(n, al, x, incx);                                                                                                                                    \
  }
#define DOT(N, T)                                                                                                                                         \
  T N(const int* n, const T* x, const int* incx, const T* y, const int* incy) {                                                                            \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(x, *n, *incx, false);                                                                                                                           \
      vec(y, *n, *incy, false);                                                                                                                           \
    }                                                                                                                                                     \
    return f(n, x, incx, y, incy);                                                                                                                        \
  }
#define NRM2(N, T, B)                                                                                                                                     \
  B N(const int* n, const T* x, const int* incx) {                                                                                                         \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      vec(x, *n, *incx, false);                                                                                                                           \
    return f(n, x, incx);                                                                                                                                 \
  }
#define ROT(N, T)                                                                                                                                         \
  void N(const int* n, T* x, const int* incx, T* y, const int* incy, const T* c, const T* s) {                                                             \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(x, *n, *incx, true);                                                                                                                            \
      vec(y, *n, *incy, true);                                                                                                                            \
    }                                                                                                                                                     \
    f(n, x, incx, y, incy, c, s);                                                                                                                         \
  }
#define LAED4(N, T)                                                                                                                                       \
  void N(const int* n, const int* i, const T* d, const T* z, T* delta, const T* rho, T* dlam, int* info) {                                                 \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(d, *n, 1, false);                                                                                                                               \
      vec(z, *n, 1, false);                                                                                                                               \
      vec(delta, *n, 1, true);                                                                                                                            \
      vec(dlam, 1, 1, true);                                                                                                                              \
    }                                                                                                                                                     \
    f(n, i, d, z, delta, rho, dlam, info);                                                                                                                \
  }
#define LARFG(N, T)                                                                                                                                       \
  void N(const int* n, T* alpha, T* x, const int* incx, T* tau) {                                                                                          \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      vec(alpha, 1, 1, true);                                                                                                                             \
      vec(x, *n - 1, *incx, true);                                                                                                                        \
      vec(tau, 1, 1, true);                                                                                                                               \
    }                                                                                                                                                     \
    f(n, alpha, x, incx, tau);                                                                                                                            \
  }
#define LACPY(N, T)                                                                                                                                       \
  void N(const char* uplo, const int* m, const int* n, const T* a, const int* lda, T* b, const int* ldb, HID) {                                            \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      tri(uplo, false, a, *m, *n, *lda, false);                                                                                                           \
      tri(uplo, false, b, *m, *n, *ldb, true);                                                                                                            \
    }                                                                                                                                                     \
    f(uplo, m, n, a, lda, b, ldb, HIDA);                                                                                                                  \
  }
#define LASET(N, T)                                                                                                                                       \
  void N(const char* uplo, const int* m, const int* n, const T* al, const T* be, T* a, const int* lda, HID) {                                              \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      tri(uplo, false, a, *m, *n, *lda, true);                                                                                                            \
    f(uplo, m, n, al, be, a, lda, HIDA);                                                                                                                  \
  }
#define LANGE(N, T, B)                                                                                                                                    \
  B N(const char* norm, const int* m, const int* n, const T* a, const int* lda, B* work, HID) {                                                            \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      mat(a, *m, *n, *lda, false);                                                                                                                        \
    return f(norm, m, n, a, lda, work, HIDA);                                                                                                             \
  }
#define LANTR(N, T, B)                                                                                                                                    \
  B N(const char* norm, const char* uplo, const char* diag, const int* m, const int* n, const T* a, const int* lda, B* work, HID) {                        \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      tri(uplo, is(diag, 'U'), a, *m, *n, *lda, false);                                                                                                   \
    return f(norm, uplo, diag, m, n, a, lda, work, HIDA);                                                                                                 \
  }
#define UPLO(N, T) /* potrf, lauum */                                                                                                                     \
  void N(const char* uplo, const int* n, T* a, const int* lda, int* info, HID) {                                                                           \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      tri(uplo, false, a, *n, *n, *lda, true);                                                                                                            \
    f(uplo, n, a, lda, info, HIDA);                                                                                                                       \
  }
#define TRTRI(N, T)                                                                                                                                       \
  void N(const char* uplo, const char* diag, const int* n, T* a, const int* lda, int* info, HID) {                                                         \
    NEXT(N);                                                                                                                                              \
    if (c_.on())                                                                                                                                          \
      tri(uplo, is(diag, 'U'), a, *n, *n, *lda, true);                                                                                                    \
    f(uplo, diag, n, a, lda, info, HIDA);                                                                                                                 \
  }
#define HEGST(N, T)                                                                                                                                       \
  void N(const int* itype, const char* uplo, const int* n, T* a, const int* lda, const T* b, const int* ldb, int* info, HID) {                             \
    NEXT(N);                                                                                                                                              \
    if (c_.on()) {                                                                                                                                        \
      tri(uplo, false, a, *n, *n, *lda, true);                                                                                                            \
      tri(uplo, false, b, *n, *n, *ldb, false);                                                                                                           \
    }                                                                                                                                                     \
    f(itype, uplo, n, a, lda, b, ldb, info, HIDA);                                                                                                        \
  }
#define STEDC(N, T)                                                                                                                                       \
  void N(const char* compz, const int* n, T* d, T* e, T* z, const int* ldz, T* work, const int* lwork, int* iwork, const int* liwork, int* info, HID) {     \
    NEXT(N);                                                                                                                                              \
    if (c_.on() && *lwork != -1 && *liwork != -1) {                                                                                                       \
      vec(d, *n, 1, true);                                                                                                                                \
      vec(e, *n - 1, 1, true);                                                                                                                            \
      mat(z, *n, *n, *ldz, true);                                                                                                                         \
    }                                                                                                                                                     \
    f(compz, n, d, e, z, ldz, work, lwork, iwork, liwork, info, HIDA);                                                                                    \
  }
#define ALL4(M, n) M(s##n##_, float) M(d##n##_, double) M(c##n##_, c64) M(z##n##_, c128)

extern "C" {
ALL4(GEMM, gemm)
HEMM(ssymm_, float) HEMM(dsymm_, double) HEMM(chemm_, c64) HEMM(zhemm_, c128)
HER2K(ssyr2k_, float, float) HER2K(dsyr2k_, double, double) HER2K(cher2k_, c64, float) HER2K(zher2k_, c128, double)
HERK(ssyrk_, float, float) HERK(dsyrk_, double, double) HERK(cherk_, c64, float) HERK(zherk_, c128, double)
ALL4(TRXM, trmm) ALL4(TRXM, trsm)
ALL4(GEMV, gemv)
GER(sger_, float) GER(dger_, double) GER(cgeru_, c64) GER(zgeru_, c128) GER(cgerc_, c64) GER(zgerc_, c128)
HEMV(ssymv_, float) HEMV(dsymv_, double) HEMV(chemv_, c64) HEMV(zhemv_, c128)
HER2(ssyr2_, float) HER2(dsyr2_, double) HER2(cher2_, c64) HER2(zher2_, c128)
ALL4(TRMV, trmv)
ALL4(AXPY, axpy) ALL4(COPY, copy)
SCAL(sscal_, float, float) SCAL(dscal_, double, double) SCAL(cscal_, c64, c64) SCAL(zscal_, c128, c128) SCAL(csscal_, c64, float) SCAL(zdscal_, c128, double)
DOT(sdot_, float) DOT(ddot_, double)
NRM2(snrm2_, float, float) NRM2(dnrm2_, double, double) NRM2(scnrm2_, c64, float) NRM2(dznrm2_, c128, double)
ROT(srot_, float) ROT(drot_, double)
LAED4(slaed4_, float) LAED4(dlaed4_, double)
ALL4(LARFG, larfg) ALL4(LACPY, lacpy) ALL4(LASET, laset)
LANGE(slange_, float, float) LANGE(dlange_, double, double) LANGE(clange_, c64, float) LANGE(zlange_, c128, double)
LANTR(slantr_, float, float) LANTR(dlantr_, double, double) LANTR(clantr_, c64, float) LANTR(zlantr_, c128, double)
ALL4(UPLO, potrf) ALL4(UPLO, lauum) ALL4(TRTRI, trtri)
HEGST(ssygst_, float) HEGST(dsygst_, double) HEGST(chegst_, c64) HEGST(zhegst_, c128)
STEDC(sstedc_, float) STEDC(dstedc_, double)
}
