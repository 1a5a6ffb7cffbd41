// BLAS/LAPACK entry points seen by the library: declare the exact footprint of every call to the
// monitor, check the arguments, then call the real routine.
#include "mc.h"
#include <complex>
#include <cctype>
#define LAPACK_COMPLEX_CUSTOM
typedef std::complex<float> C8; typedef std::complex<double> C16;
#define lapack_complex_float C8
#define lapack_complex_double C16
#include <lapacke.h>
extern "C" {
#include <cblas.h>
#include <lua.h>
#include <lauxlib.h>
}
using namespace mc;
#define PCV const void *pc = __builtin_return_address(0); blas_calls++;
#define SZ(T) (sizeof(T))
namespace {
template <class T> struct R_ { typedef T t; };
template <> struct R_<C8> { typedef float t; };
template <> struct R_<C16> { typedef double t; };
inline void bad(const char *f, int i) { fail(ILLEGALBLAS, std::string("illegal argument ") + std::to_string(i) + " in call of " + f); }
template <class T> void rect(const T *a, int m, int n, int ld, bool w, const void *pc) {
    if (m <= 0 || n <= 0) return;
    if (ld == m) { touch(a, (size_t)m * n * SZ(T), w, pc); return; }
    for (int j = 0; j < n; j++) touch(a + (size_t)j * ld, m * SZ(T), w, pc);
}
// triangle/trapezoid; d = 0 includes the diagonal, 1 excludes it
template <class T> void tri(const T *a, char uplo, int m, int n, int ld, int d, bool w, const void *pc) {
    for (int j = 0; j < n; j++) {
        int lo, hi;
        if (uplo == 'U') { lo = 0; hi = std::min(j + 1 - d, m); } else { lo = j + d; hi = m; }
        if (hi > lo) touch(a + (size_t)j * ld + lo, (hi - lo) * SZ(T), w, pc);
    }
}
template <class T> void vec(const T *x, int n, int inc, bool w, const void *pc) {
    if (n <= 0) return;
    if (inc == 1) { touch(x, n * SZ(T), w, pc); return; }
    if (inc < 0) x -= (ptrdiff_t)(n - 1) * inc;
    for (int i = 0; i < n; i++) touch(x + (ptrdiff_t)i * inc, SZ(T), w, pc);
}
inline char U(CBLAS_UPLO u) { return u == CblasUpper ? 'U' : 'L'; }
inline int mx(int a) { return a > 1 ? a : 1; }
template <class T> bool z(T a) { return a == T(0); }
}
#include <algorithm>

// ---- generic footprints
template <class T> void f_gemm(const char *f, int o, int ta, int tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc, const void *pc) {
    bool na = ta == CblasNoTrans, nb = tb == CblasNoTrans;
    if (o != CblasColMajor) bad(f, 1);
    if (m < 0) bad(f, 4); if (n < 0) bad(f, 5); if (k < 0) bad(f, 6);
    if (lda < mx(na ? m : k)) bad(f, 9); if (ldb < mx(nb ? k : n)) bad(f, 11); if (ldc < mx(m)) bad(f, 14);
    if (m == 0 || n == 0 || ((z(al) || k == 0) && be == T(1))) return;
    if (!z(al) && k > 0) { rect(a, na ? m : k, na ? k : m, lda, false, pc); rect(b, nb ? k : n, nb ? n : k, ldb, false, pc); }
    if (!z(be)) rect(c, m, n, ldc, false, pc);
    rect(c, m, n, ldc, true, pc);
}
template <class T> void f_symm(const char *f, int o, int side, CBLAS_UPLO u, int m, int n, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc, const void *pc) {
    int k = side == CblasLeft ? m : n;
    if (o != CblasColMajor) bad(f, 1);
    if (m < 0) bad(f, 4); if (n < 0) bad(f, 5); if (lda < mx(k)) bad(f, 8); if (ldb < mx(m)) bad(f, 10); if (ldc < mx(m)) bad(f, 13);
    if (m == 0 || n == 0 || (z(al) && be == T(1))) return;
    if (!z(al)) { tri(a, U(u), k, k, lda, 0, false, pc); rect(b, m, n, ldb, false, pc); }
    if (!z(be)) rect(c, m, n, ldc, false, pc);
    rect(c, m, n, ldc, true, pc);
}
template <class T> void f_syrk(const char *f, int o, CBLAS_UPLO u, int t, int n, int k, bool zal, bool zbe, bool onebe, const T *a, int lda, const T *b, int ldb, T *c, int ldc, const void *pc) {
    bool nt = t == CblasNoTrans;
    if (o != CblasColMajor) bad(f, 1);
    if (n < 0) bad(f, 4); if (k < 0) bad(f, 5); if (lda < mx(nt ? n : k)) bad(f, 8); if (b && ldb < mx(nt ? n : k)) bad(f, 10); if (ldc < mx(n)) bad(f, 11);
    if (n == 0 || ((zal || k == 0) && onebe)) return;
    if (!zal && k > 0) { rect(a, nt ? n : k, nt ? k : n, lda, false, pc); if (b) rect(b, nt ? n : k, nt ? k : n, ldb, false, pc); }
    if (!zbe) tri(c, U(u), n, n, ldc, 0, false, pc);
    tri(c, U(u), n, n, ldc, 0, true, pc);
}
template <class T> void f_trxm(const char *f, int o, int side, CBLAS_UPLO u, int t, int diag, int m, int n, T al, const T *a, int lda, T *b, int ldb, const void *pc) {
    int k = side == CblasLeft ? m : n;
    if (o != CblasColMajor) bad(f, 1);
    if (m < 0) bad(f, 6); if (n < 0) bad(f, 7); if (lda < mx(k)) bad(f, 10); if (ldb < mx(m)) bad(f, 12);
    if (m == 0 || n == 0) return;
    if (!z(al)) { tri(a, U(u), k, k, lda, diag == CblasUnit, false, pc); rect(b, m, n, ldb, false, pc); }
    rect(b, m, n, ldb, true, pc);
}
template <class T> void f_gemv(const char *f, int o, int t, int m, int n, T al, const T *a, int lda, const T *x, int incx, T be, T *y, int incy, const void *pc) {
    if (o != CblasColMajor) bad(f, 1);
    if (m < 0) bad(f, 3); if (n < 0) bad(f, 4); if (lda < mx(m)) bad(f, 7); if (!incx) bad(f, 9); if (!incy) bad(f, 12);
    if (m == 0 || n == 0 || (z(al) && be == T(1))) return;
    int lx = t == CblasNoTrans ? n : m, ly = t == CblasNoTrans ? m : n;
    if (!z(al)) { rect(a, m, n, lda, false, pc); vec(x, lx, incx, false, pc); }
    if (!z(be)) vec(y, ly, incy, false, pc);
    vec(y, ly, incy, true, pc);
}
template <class T> void f_ger(const char *f, int o, int m, int n, T al, const T *x, int incx, const T *y, int incy, T *a, int lda, const void *pc) {
    if (o != CblasColMajor) bad(f, 1);
    if (m < 0) bad(f, 2); if (n < 0) bad(f, 3); if (!incx) bad(f, 6); if (!incy) bad(f, 8); if (lda < mx(m)) bad(f, 10);
    if (m == 0 || n == 0 || z(al)) return;
    vec(x, m, incx, false, pc); vec(y, n, incy, false, pc); rect(a, m, n, lda, false, pc); rect(a, m, n, lda, true, pc);
}
template <class T> void f_trv(const char *f, int o, CBLAS_UPLO u, int t, int diag, int n, const T *a, int lda, T *x, int incx, const void *pc) {
    if (o != CblasColMajor) bad(f, 1);
    if (n < 0) bad(f, 5); if (lda < mx(n)) bad(f, 7); if (!incx) bad(f, 9);
    tri(a, U(u), n, n, lda, diag == CblasUnit, false, pc); vec(x, n, incx, false, pc); vec(x, n, incx, true, pc);
}
#define CO CBLAS_ORDER
#define CT CBLAS_TRANSPOSE
#define CU CBLAS_UPLO
#define CS CBLAS_SIDE
#define CD CBLAS_DIAG
extern "C" {
// ---- real
#define REAL(P, T) \
void mc_cblas_##P##gemm(CO o, CT ta, CT tb, int m, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) { PCV f_gemm<T>("gemm", o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc, pc); cblas_##P##gemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##P##symm(CO o, CS s, CU u, int m, int n, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) { PCV f_symm<T>("symm", o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc, pc); cblas_##P##symm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##P##syrk(CO o, CU u, CT t, int n, int k, T al, const T *a, int lda, T be, T *c, int ldc) { PCV f_syrk<T>("syrk", o, u, t, n, k, z(al), z(be), be == T(1), a, lda, nullptr, 0, c, ldc, pc); cblas_##P##syrk(o, u, t, n, k, al, a, lda, be, c, ldc); } \
void mc_cblas_##P##syr2k(CO o, CU u, CT t, int n, int k, T al, const T *a, int lda, const T *b, int ldb, T be, T *c, int ldc) { PCV f_syrk<T>("syr2k", o, u, t, n, k, z(al), z(be), be == T(1), a, lda, b, ldb, c, ldc, pc); cblas_##P##syr2k(o, u, t, n, k, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##P##trmm(CO o, CS s, CU u, CT t, CD d, int m, int n, T al, const T *a, int lda, T *b, int ldb) { PCV f_trxm<T>("trmm", o, s, u, t, d, m, n, al, a, lda, b, ldb, pc); cblas_##P##trmm(o, s, u, t, d, m, n, al, a, lda, b, ldb); } \
void mc_cblas_##P##trsm(CO o, CS s, CU u, CT t, CD d, int m, int n, T al, const T *a, int lda, T *b, int ldb) { PCV f_trxm<T>("trsm", o, s, u, t, d, m, n, al, a, lda, b, ldb, pc); cblas_##P##trsm(o, s, u, t, d, m, n, al, a, lda, b, ldb); } \
void mc_cblas_##P##gemv(CO o, CT t, int m, int n, T al, const T *a, int lda, const T *x, int ix, T be, T *y, int iy) { PCV f_gemv<T>("gemv", o, t, m, n, al, a, lda, x, ix, be, y, iy, pc); cblas_##P##gemv(o, t, m, n, al, a, lda, x, ix, be, y, iy); } \
void mc_cblas_##P##ger(CO o, int m, int n, T al, const T *x, int ix, const T *y, int iy, T *a, int lda) { PCV f_ger<T>("ger", o, m, n, al, x, ix, y, iy, a, lda, pc); cblas_##P##ger(o, m, n, al, x, ix, y, iy, a, lda); } \
void mc_cblas_##P##trmv(CO o, CU u, CT t, CD d, int n, const T *a, int lda, T *x, int ix) { PCV f_trv<T>("trmv", o, u, t, d, n, a, lda, x, ix, pc); cblas_##P##trmv(o, u, t, d, n, a, lda, x, ix); } \
void mc_cblas_##P##trsv(CO o, CU u, CT t, CD d, int n, const T *a, int lda, T *x, int ix) { PCV f_trv<T>("trsv", o, u, t, d, n, a, lda, x, ix, pc); cblas_##P##trsv(o, u, t, d, n, a, lda, x, ix); } \
void mc_cblas_##P##scal(int n, T al, T *x, int ix) { PCV vec(x, n, ix, false, pc); vec(x, n, ix, true, pc); cblas_##P##scal(n, al, x, ix); } \
void mc_cblas_##P##axpy(int n, T al, const T *x, int ix, T *y, int iy) { PCV if (!z(al)) { vec(x, n, ix, false, pc); vec(y, n, iy, false, pc); vec(y, n, iy, true, pc); } cblas_##P##axpy(n, al, x, ix, y, iy); } \
void mc_cblas_##P##copy(int n, const T *x, int ix, T *y, int iy) { PCV vec(x, n, ix, false, pc); vec(y, n, iy, true, pc); cblas_##P##copy(n, x, ix, y, iy); } \
void mc_cblas_##P##swap(int n, T *x, int ix, T *y, int iy) { PCV vec(x, n, ix, false, pc); vec(y, n, iy, false, pc); vec(x, n, ix, true, pc); vec(y, n, iy, true, pc); cblas_##P##swap(n, x, ix, y, iy); } \
T mc_cblas_##P##dot(int n, const T *x, int ix, const T *y, int iy) { PCV vec(x, n, ix, false, pc); vec(y, n, iy, false, pc); return cblas_##P##dot(n, x, ix, y, iy); } \
T mc_cblas_##P##nrm2(int n, const T *x, int ix) { PCV vec(x, n, ix, false, pc); return cblas_##P##nrm2(n, x, ix); } \
T mc_cblas_##P##asum(int n, const T *x, int ix) { PCV vec(x, n, ix, false, pc); return cblas_##P##asum(n, x, ix); } \
size_t mc_cblas_i##P##amax(int n, const T *x, int ix) { PCV vec(x, n, ix, false, pc); return cblas_i##P##amax(n, x, ix); }
REAL(s, float) REAL(d, double)
#define V(x) (*(const T*)(x))
#define P_(x) ((const T*)(x))
#define W_(x) ((T*)(x))
#define CPLX(PR, TT, RT, SC) \
void mc_cblas_##PR##gemm(CO o, CT ta, CT tb, int m, int n, int k, const void *al, const void *a, int lda, const void *b, int ldb, const void *be, void *c, int ldc) { PCV typedef TT T; f_gemm<T>("gemm", o, ta, tb, m, n, k, V(al), P_(a), lda, P_(b), ldb, V(be), W_(c), ldc, pc); cblas_##PR##gemm(o, ta, tb, m, n, k, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##PR##symm(CO o, CS s, CU u, int m, int n, const void *al, const void *a, int lda, const void *b, int ldb, const void *be, void *c, int ldc) { PCV typedef TT T; f_symm<T>("symm", o, s, u, m, n, V(al), P_(a), lda, P_(b), ldb, V(be), W_(c), ldc, pc); cblas_##PR##symm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##PR##hemm(CO o, CS s, CU u, int m, int n, const void *al, const void *a, int lda, const void *b, int ldb, const void *be, void *c, int ldc) { PCV typedef TT T; f_symm<T>("hemm", o, s, u, m, n, V(al), P_(a), lda, P_(b), ldb, V(be), W_(c), ldc, pc); cblas_##PR##hemm(o, s, u, m, n, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##PR##syrk(CO o, CU u, CT t, int n, int k, const void *al, const void *a, int lda, const void *be, void *c, int ldc) { PCV typedef TT T; f_syrk<T>("syrk", o, u, t, n, k, z(V(al)), z(V(be)), V(be) == T(1), P_(a), lda, nullptr, 0, W_(c), ldc, pc); cblas_##PR##syrk(o, u, t, n, k, al, a, lda, be, c, ldc); } \
void mc_cblas_##PR##herk(CO o, CU u, CT t, int n, int k, RT al, const void *a, int lda, RT be, void *c, int ldc) { PCV typedef TT T; f_syrk<T>("herk", o, u, t, n, k, al == 0, be == 0, be == 1, P_(a), lda, nullptr, 0, W_(c), ldc, pc); cblas_##PR##herk(o, u, t, n, k, al, a, lda, be, c, ldc); } \
void mc_cblas_##PR##syr2k(CO o, CU u, CT t, int n, int k, const void *al, const void *a, int lda, const void *b, int ldb, const void *be, void *c, int ldc) { PCV typedef TT T; f_syrk<T>("syr2k", o, u, t, n, k, z(V(al)), z(V(be)), V(be) == T(1), P_(a), lda, P_(b), ldb, W_(c), ldc, pc); cblas_##PR##syr2k(o, u, t, n, k, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##PR##her2k(CO o, CU u, CT t, int n, int k, const void *al, const void *a, int lda, const void *b, int ldb, RT be, void *c, int ldc) { PCV typedef TT T; f_syrk<T>("her2k", o, u, t, n, k, z(V(al)), be == 0, be == 1, P_(a), lda, P_(b), ldb, W_(c), ldc, pc); cblas_##PR##her2k(o, u, t, n, k, al, a, lda, b, ldb, be, c, ldc); } \
void mc_cblas_##PR##trmm(CO o, CS s, CU u, CT t, CD d, int m, int n, const void *al, const void *a, int lda, void *b, int ldb) { PCV typedef TT T; f_trxm<T>("trmm", o, s, u, t, d, m, n, V(al), P_(a), lda, W_(b), ldb, pc); cblas_##PR##trmm(o, s, u, t, d, m, n, al, a, lda, b, ldb); } \
void mc_cblas_##PR##trsm(CO o, CS s, CU u, CT t, CD d, int m, int n, const void *al, const void *a, int lda, void *b, int ldb) { PCV typedef TT T; f_trxm<T>("trsm", o, s, u, t, d, m, n, V(al), P_(a), lda, W_(b), ldb, pc); cblas_##PR##trsm(o, s, u, t, d, m, n, al, a, lda, b, ldb); } \
void mc_cblas_##PR##gemv(CO o, CT t, int m, int n, const void *al, const void *a, int lda, const void *x, int ix, const void *be, void *y, int iy) { PCV typedef TT T; f_gemv<T>("gemv", o, t, m, n, V(al), P_(a), lda, P_(x), ix, V(be), W_(y), iy, pc); cblas_##PR##gemv(o, t, m, n, al, a, lda, x, ix, be, y, iy); } \
void mc_cblas_##PR##gerc(CO o, int m, int n, const void *al, const void *x, int ix, const void *y, int iy, void *a, int lda) { PCV typedef TT T; f_ger<T>("gerc", o, m, n, V(al), P_(x), ix, P_(y), iy, W_(a), lda, pc); cblas_##PR##gerc(o, m, n, al, x, ix, y, iy, a, lda); } \
void mc_cblas_##PR##geru(CO o, int m, int n, const void *al, const void *x, int ix, const void *y, int iy, void *a, int lda) { PCV typedef TT T; f_ger<T>("geru", o, m, n, V(al), P_(x), ix, P_(y), iy, W_(a), lda, pc); cblas_##PR##geru(o, m, n, al, x, ix, y, iy, a, lda); } \
void mc_cblas_##PR##trmv(CO o, CU u, CT t, CD d, int n, const void *a, int lda, void *x, int ix) { PCV typedef TT T; f_trv<T>("trmv", o, u, t, d, n, P_(a), lda, W_(x), ix, pc); cblas_##PR##trmv(o, u, t, d, n, a, lda, x, ix); } \
void mc_cblas_##PR##trsv(CO o, CU u, CT t, CD d, int n, const void *a, int lda, void *x, int ix) { PCV typedef TT T; f_trv<T>("trsv", o, u, t, d, n, P_(a), lda, W_(x), ix, pc); cblas_##PR##trsv(o, u, t, d, n, a, lda, x, ix); } \
void mc_cblas_##PR##scal(int n, const void *al, void *x, int ix) { PCV typedef TT T; vec(W_(x), n, ix, false, pc); vec(W_(x), n, ix, true, pc); cblas_##PR##scal(n, al, x, ix); } \
void mc_cblas_##SC(int n, RT al, void *x, int ix) { PCV typedef TT T; vec(W_(x), n, ix, false, pc); vec(W_(x), n, ix, true, pc); cblas_##SC(n, al, x, ix); } \
void mc_cblas_##PR##axpy(int n, const void *al, const void *x, int ix, void *y, int iy) { PCV typedef TT T; if (!z(V(al))) { vec(P_(x), n, ix, false, pc); vec(P_(y), n, iy, false, pc); vec(W_(y), n, iy, true, pc); } cblas_##PR##axpy(n, al, x, ix, y, iy); } \
void mc_cblas_##PR##copy(int n, const void *x, int ix, void *y, int iy) { PCV typedef TT T; vec(P_(x), n, ix, false, pc); vec(W_(y), n, iy, true, pc); cblas_##PR##copy(n, x, ix, y, iy); } \
void mc_cblas_##PR##swap(int n, void *x, int ix, void *y, int iy) { PCV typedef TT T; vec(P_(x), n, ix, false, pc); vec(P_(y), n, iy, false, pc); vec(W_(x), n, ix, true, pc); vec(W_(y), n, iy, true, pc); cblas_##PR##swap(n, x, ix, y, iy); } \
void mc_cblas_##PR##dotc_sub(int n, const void *x, int ix, const void *y, int iy, void *r) { PCV typedef TT T; vec(P_(x), n, ix, false, pc); vec(P_(y), n, iy, false, pc); touch(r, SZ(T), true, pc); cblas_##PR##dotc_sub(n, x, ix, y, iy, r); } \
void mc_cblas_##PR##dotu_sub(int n, const void *x, int ix, const void *y, int iy, void *r) { PCV typedef TT T; vec(P_(x), n, ix, false, pc); vec(P_(y), n, iy, false, pc); touch(r, SZ(T), true, pc); cblas_##PR##dotu_sub(n, x, ix, y, iy, r); } \
size_t mc_cblas_i##PR##amax(int n, const void *x, int ix) { PCV typedef TT T; vec(P_(x), n, ix, false, pc); return cblas_i##PR##amax(n, x, ix); }
CPLX(c, C8, float, csscal) CPLX(z, C16, double, zdscal)
float mc_cblas_scnrm2(int n, const void *x, int ix) { PCV vec((const C8 *)x, n, ix, false, pc); return cblas_scnrm2(n, x, ix); }
double mc_cblas_dznrm2(int n, const void *x, int ix) { PCV vec((const C16 *)x, n, ix, false, pc); return cblas_dznrm2(n, x, ix); }
float mc_cblas_scasum(int n, const void *x, int ix) { PCV vec((const C8 *)x, n, ix, false, pc); return cblas_scasum(n, x, ix); }
double mc_cblas_dzasum(int n, const void *x, int ix) { PCV vec((const C16 *)x, n, ix, false, pc); return cblas_dzasum(n, x, ix); }

// ---- LAPACKE work routines, column major
typedef lapack_int I;
#define COL(l) if (l != LAPACK_COL_MAJOR) bad("LAPACKE", 1);
#define UP(c) (char)toupper((unsigned char)(c))
#define LAP(P, T, R, SY, HE, LC) \
I mc_LAPACKE_##P##lacpy_work(int l, char u, I m, I n, const T *a, I lda, T *b, I ldb) { PCV COL(l) char c = UP(u); if (m > 0 && (lda < m || ldb < m)) bad("lacpy", 6); if (c == 'U' || c == 'L') { tri(a, c, m, n, lda, 0, false, pc); tri(b, c, m, n, ldb, 0, true, pc); } else { rect(a, m, n, lda, false, pc); rect(b, m, n, ldb, true, pc); } return LAPACKE_##P##lacpy_work(l, u, m, n, a, lda, b, ldb); } \
I mc_LAPACKE_##P##laset_work(int l, char u, I m, I n, T al, T be, T *a, I lda) { PCV COL(l) char c = UP(u); if (m > 0 && lda < m) bad("laset", 8); if (c == 'U' || c == 'L') tri(a, c, m, n, lda, 0, true, pc); else rect(a, m, n, lda, true, pc); return LAPACKE_##P##laset_work(l, u, m, n, al, be, a, lda); } \
R mc_LAPACKE_##P##lange_work(int l, char nm, I m, I n, const T *a, I lda, R *w) { PCV COL(l) if (m > 0 && lda < m) bad("lange", 6); rect(a, m, n, lda, false, pc); if (UP(nm) == 'I' && m > 0 && n > 0) touch(w, m * sizeof(R), true, pc); return LAPACKE_##P##lange_work(l, nm, m, n, a, lda, w); } \
R mc_LAPACKE_##P##lansy_work(int l, char nm, char u, I n, const T *a, I lda, R *w) { PCV COL(l) if (lda < n) bad("lansy", 6); tri(a, UP(u), n, n, lda, 0, false, pc); if ((UP(nm) == 'I' || UP(nm) == 'O' || nm == '1') && n > 0) touch(w, n * sizeof(R), true, pc); return LAPACKE_##P##lansy_work(l, nm, u, n, a, lda, w); } \
I mc_LAPACKE_##P##lauum_work(int l, char u, I n, T *a, I lda) { PCV COL(l) if (lda < mx(n)) bad("lauum", 5); tri(a, UP(u), n, n, lda, 0, false, pc); tri(a, UP(u), n, n, lda, 0, true, pc); return LAPACKE_##P##lauum_work(l, u, n, a, lda); } \
I mc_LAPACKE_##P##potrf_work(int l, char u, I n, T *a, I lda) { PCV COL(l) if (n < 0) bad("potrf", 3); if (lda < mx(n)) bad("potrf", 5); tri(a, UP(u), n, n, lda, 0, false, pc); tri(a, UP(u), n, n, lda, 0, true, pc); return LAPACKE_##P##potrf_work(l, u, n, a, lda); } \
I mc_LAPACKE_##P##trtri_work(int l, char u, char d, I n, T *a, I lda) { PCV COL(l) if (n < 0) bad("trtri", 4); if (lda < mx(n)) bad("trtri", 6); int e = UP(d) == 'U'; tri(a, UP(u), n, n, lda, e, false, pc); tri(a, UP(u), n, n, lda, e, true, pc); return LAPACKE_##P##trtri_work(l, u, d, n, a, lda); } \
I mc_LAPACKE_##P##HE##gst_work(int l, I it, char u, I n, T *a, I lda, const T *b, I ldb) { PCV COL(l) if (n < 0) bad("hegst", 4); if (lda < mx(n) || ldb < mx(n)) bad("hegst", 6); tri(a, UP(u), n, n, lda, 0, false, pc); tri(a, UP(u), n, n, lda, 0, true, pc); tri(b, UP(u), n, n, ldb, 0, false, pc); return LAPACKE_##P##HE##gst_work(l, it, u, n, a, lda, b, ldb); } \
I mc_LAPACKE_##P##larfb_work(int l, char s, char t, char d, char sv, I m, I n, I k, const T *v, I ldv, const T *tt, I ldt, T *c, I ldc, T *w, I ldw) { PCV COL(l) if (m > 0 && n > 0 && k > 0) { int nq = UP(s) == 'L' ? m : n, nw = UP(s) == 'L' ? n : m; if (ldw < nw) bad("larfb", 16); if (ldc < m) bad("larfb", 14); if (ldt < k) bad("larfb", 12); bool col = UP(sv) == 'C', fw = UP(d) == 'F'; \
   if (ldv < (col ? nq : k)) bad("larfb", 10); \
   if (fw && col) tri(v, 'L', nq, k, ldv, 1, false, pc); else if (fw) tri(v, 'U', k, nq, ldv, 1, false, pc); else rect(v, col ? nq : k, col ? k : nq, ldv, false, pc); \
   tri(tt, fw ? 'U' : 'L', k, k, ldt, 0, false, pc); rect(c, m, n, ldc, false, pc); rect(c, m, n, ldc, true, pc); rect(w, nw, k, ldw, true, pc); } \
   return LAPACKE_##P##larfb_work(l, s, t, d, sv, m, n, k, v, ldv, tt, ldt, c, ldc, w, ldw); } \
I mc_LAPACKE_##P##larfg_work(I n, T *al, T *x, I ix, T *tau) { PCV if (n > 0) { touch(al, SZ(T), false, pc); touch(al, SZ(T), true, pc); vec(x, n - 1, ix, false, pc); vec(x, n - 1, ix, true, pc); touch(tau, SZ(T), true, pc); } return LAPACKE_##P##larfg_work(n, al, x, ix, tau); } \
I mc_LAPACKE_##P##larft_work(int l, char d, char sv, I n, I k, const T *v, I ldv, const T *tau, T *t, I ldt) { PCV COL(l) if (n > 0 && k > 0) { bool col = UP(sv) == 'C', fw = UP(d) == 'F'; if (ldt < k) bad("larft", 10); if (fw && col) tri(v, 'L', n, k, ldv, 1, false, pc); else if (fw) tri(v, 'U', k, n, ldv, 1, false, pc); else rect(v, col ? n : k, col ? k : n, ldv, false, pc); touch(tau, k * SZ(T), false, pc); tri(t, fw ? 'U' : 'L', k, k, ldt, 0, true, pc); } return LAPACKE_##P##larft_work(l, d, sv, n, k, v, ldv, tau, t, ldt); } \
I mc_LAPACKE_##P##larfx_work(int l, char s, I m, I n, const T *v, T tau, T *c, I ldc, T *w) { PCV COL(l) if (m > 0 && n > 0 && tau != T(0)) { int k = UP(s) == 'L' ? m : n, q = UP(s) == 'L' ? n : m; touch(v, k * SZ(T), false, pc); rect(c, m, n, ldc, false, pc); rect(c, m, n, ldc, true, pc); if (k > 10) touch(w, q * SZ(T), true, pc); } return LAPACKE_##P##larfx_work(l, s, m, n, v, tau, c, ldc, w); } \
I mc_LAPACKE_##P##geqr2_work(int l, I m, I n, T *a, I lda, T *tau, T *w) { PCV COL(l) if (lda < mx(m)) bad("geqr2", 5); rect(a, m, n, lda, false, pc); rect(a, m, n, lda, true, pc); if (std::min(m, n) > 0) { touch(tau, std::min(m, n) * SZ(T), true, pc); touch(w, n * SZ(T), true, pc); } return LAPACKE_##P##geqr2_work(l, m, n, a, lda, tau, w); } \
I mc_LAPACKE_##P##gelq2_work(int l, I m, I n, T *a, I lda, T *tau, T *w) { PCV COL(l) if (lda < mx(m)) bad("gelq2", 5); rect(a, m, n, lda, false, pc); rect(a, m, n, lda, true, pc); if (std::min(m, n) > 0) { touch(tau, std::min(m, n) * SZ(T), true, pc); touch(w, m * SZ(T), true, pc); } return LAPACKE_##P##gelq2_work(l, m, n, a, lda, tau, w); } \
LC R mc_##P##lantr_(const char *nm, const char *u, const char *d, const I *m, const I *n, const T *a, const I *lda, R *w, size_t, size_t, size_t) { PCV int e = UP(*d) == 'U'; if (*m > 0 && *lda < *m) bad("lantr", 7); if (*m > 0 && *n > 0) { tri(a, UP(*u), *m, *n, *lda, e, false, pc); if (UP(*nm) == 'I') touch(w, *m * sizeof(R), true, pc); } return LAPACK_##P##lantr_base(nm, u, d, m, n, a, lda, w, 1, 1, 1); } \
void mc_##P##lascl_(const char *ty, const I *kl, const I *ku, const R *cf, const R *ct, const I *m, const I *n, T *a, const I *lda, I *info, size_t) { PCV char c = UP(*ty); if (*m > 0 && *lda < *m) bad("lascl", 9); if (c == 'G') { rect(a, *m, *n, *lda, false, pc); rect(a, *m, *n, *lda, true, pc); } else if (c == 'L' || c == 'U') { tri(a, c, *m, *n, *lda, 0, false, pc); tri(a, c, *m, *n, *lda, 0, true, pc); } else { rect(a, *m, *n, *lda, false, pc); rect(a, *m, *n, *lda, true, pc); } touch(info, sizeof(I), true, pc); LAPACK_##P##lascl_base(ty, kl, ku, cf, ct, m, n, a, lda, info, 1); } \
void mc_##P##lassq_(const I *n, T *x, const I *ix, R *sc, R *ss) { PCV vec(x, *n, *ix, false, pc); touch(sc, sizeof(R), false, pc); touch(ss, sizeof(R), false, pc); touch(sc, sizeof(R), true, pc); touch(ss, sizeof(R), true, pc); LAPACK_##P##lassq_base(n, x, ix, sc, ss); }
// LAPACKE declares these with optional trailing string lengths; use our own prototypes
#define FOR(P, T, R) \
 R LAPACK_##P##lantr_base(const char *, const char *, const char *, const I *, const I *, const T *, const I *, R *, size_t, size_t, size_t) __asm__(#P "lantr_"); \
 void LAPACK_##P##lascl_base(const char *, const I *, const I *, const R *, const R *, const I *, const I *, T *, const I *, I *, size_t) __asm__(#P "lascl_"); \
 void LAPACK_##P##lassq_base(const I *, T *, const I *, R *, R *) __asm__(#P "lassq_");
#undef LAPACK_slantr_base
#undef LAPACK_dlantr_base
#undef LAPACK_clantr_base
#undef LAPACK_zlantr_base
#undef LAPACK_slascl_base
#undef LAPACK_dlascl_base
#undef LAPACK_clascl_base
#undef LAPACK_zlascl_base
#undef LAPACK_slassq_base
#undef LAPACK_dlassq_base
#undef LAPACK_classq_base
#undef LAPACK_zlassq_base
#define LAPACK_slantr_base my_slantr
#define LAPACK_dlantr_base my_dlantr
#define LAPACK_clantr_base my_clantr
#define LAPACK_zlantr_base my_zlantr
#define LAPACK_slascl_base my_slascl
#define LAPACK_dlascl_base my_dlascl
#define LAPACK_clascl_base my_clascl
#define LAPACK_zlascl_base my_zlascl
#define LAPACK_slassq_base my_slassq
#define LAPACK_dlassq_base my_dlassq
#define LAPACK_classq_base my_classq
#define LAPACK_zlassq_base my_zlassq
#define FOR2(P, T, R) \
 R my_##P##lantr(const char *, const char *, const char *, const I *, const I *, const T *, const I *, R *, size_t, size_t, size_t) __asm__(#P "lantr_"); \
 void my_##P##lascl(const char *, const I *, const I *, const R *, const R *, const I *, const I *, T *, const I *, I *, size_t) __asm__(#P "lascl_"); \
 void my_##P##lassq(const I *, T *, const I *, R *, R *) __asm__(#P "lassq_");
FOR2(s, float, float) FOR2(d, double, double) FOR2(c, C8, float) FOR2(z, C16, double)
#define LAPX(P, T, R, SY, HE) LAP(P, T, R, SY, HE, )
LAPX(s, float, float, sy, sy) LAPX(d, double, double, sy, sy) LAPX(c, C8, float, sy, he) LAPX(z, C16, double, sy, he)
#define CH(P, T, R) \
R mc_LAPACKE_##P##lanhe_work(int l, char nm, char u, I n, const T *a, I lda, R *w) { PCV COL(l) if (lda < n) bad("lanhe", 6); tri(a, UP(u), n, n, lda, 0, false, pc); if ((UP(nm) == 'I' || UP(nm) == 'O' || nm == '1') && n > 0) touch(w, n * sizeof(R), true, pc); return LAPACKE_##P##lanhe_work(l, nm, u, n, a, lda, w); } \
I mc_LAPACKE_##P##lacgv_work(I n, T *x, I ix) { PCV vec(x, n, ix, false, pc); vec(x, n, ix, true, pc); return LAPACKE_##P##lacgv_work(n, x, ix); }
CH(c, C8, float) CH(z, C16, double)
#define CONV(NAME, A, B) I mc_LAPACKE_##NAME##_work(int l, I m, I n, const A *a, I lda, B *b, I ldb) { PCV COL(l) if (m > 0 && (lda < m || ldb < m)) bad(#NAME, 5); rect(a, m, n, lda, false, pc); rect(b, m, n, ldb, true, pc); return LAPACKE_##NAME##_work(l, m, n, a, lda, b, ldb); }
CONV(dlag2s, double, float) CONV(slag2d, float, double) CONV(zlag2c, C16, C8) CONV(clag2z, C8, C16)
#define EIG(P, T) \
T mc_LAPACKE_##P##lamch_work(char c) { return LAPACKE_##P##lamch_work(c); } \
I mc_LAPACKE_##P##stein_work(int l, I n, const T *d, const T *e, I m, const T *w, const I *ib, const I *is, T *zz, I ldz, T *wk, I *iw, I *ifl) { PCV COL(l) if (n > 0) { touch(d, n * SZ(T), false, pc); if (n > 1) touch(e, (n - 1) * SZ(T), false, pc); touch(w, m * SZ(T), false, pc); touch(ib, m * sizeof(I), false, pc); touch(is, sizeof(I), false, pc); rect(zz, n, m, ldz, true, pc); touch(wk, 5 * n * SZ(T), true, pc); touch(iw, n * sizeof(I), true, pc); touch(ifl, m * sizeof(I), true, pc); } return LAPACKE_##P##stein_work(l, n, d, e, m, w, ib, is, zz, ldz, wk, iw, ifl); } \
I mc_LAPACKE_##P##bdsdc(int l, char u, char cq, I n, T *d, T *e, T *uu, I ldu, T *vt, I ldvt, T *q, I *iq) { PCV COL(l) if (n > 0) { touch(d, n * SZ(T), false, pc); touch(d, n * SZ(T), true, pc); if (n > 1) { touch(e, (n - 1) * SZ(T), false, pc); touch(e, (n - 1) * SZ(T), true, pc); } if (UP(cq) == 'I') { if (ldu < n || ldvt < n) bad("bdsdc", 8); rect(uu, n, n, ldu, true, pc); rect(vt, n, n, ldvt, true, pc); } } return LAPACKE_##P##bdsdc(l, u, cq, n, d, e, uu, ldu, vt, ldvt, q, iq); }
EIG(s, float) EIG(d, double)

// ---- Lua states are counted so that a state that is never closed is seen
static std::vector<lua_State *> states;
lua_State *mc_luaL_newstate() { lua_State *L = luaL_newstate(); if (L) states.push_back(L); return L; }
void mc_lua_close(lua_State *L) { for (size_t i = 0; i < states.size(); i++) if (states[i] == L) { states.erase(states.begin() + i); lua_close(L); return; } fail(BADFREE, "lua_close of a state that is not open"); }
int mc_lua_live_count() { return (int)states.size(); }
void mc_lua_close_all() { for (auto L : states) lua_close(L); states.clear(); }
}
