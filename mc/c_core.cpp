// The single-tile kernels of the core library, called directly.
#include "h.h"
extern "C" {
void mc_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int mc_omp_get_thread_num();
}
#define SQ plasma_sequence_t *, plasma_request_t *
#define W_ __attribute__((weak))
#define DK(p, T, R, UN, HE, PO, AM) extern "C" { \
W_ int plasma_core_##p##geadd(int,int,int,T,const T*,int,T,T*,int); W_ int plasma_core_##p##tradd(int,int,int,int,T,const T*,int,T,T*,int); \
W_ int plasma_core_##p##gelqt(int,int,int,T*,int,T*,int,T*,T*); W_ int plasma_core_##p##geqrt(int,int,int,T*,int,T*,int,T*,T*); \
W_ int plasma_core_##p##tsqrt(int,int,int,T*,int,T*,int,T*,int,T*,T*); W_ int plasma_core_##p##tslqt(int,int,int,T*,int,T*,int,T*,int,T*,T*); W_ int plasma_core_##p##ttqrt(int,int,int,T*,int,T*,int,T*,int,T*,T*); W_ int plasma_core_##p##ttlqt(int,int,int,T*,int,T*,int,T*,int,T*,T*); \
W_ int plasma_core_##p##tsmqr(int,int,int,int,int,int,int,int,T*,int,T*,int,const T*,int,const T*,int,T*,int); W_ int plasma_core_##p##tsmlq(int,int,int,int,int,int,int,int,T*,int,T*,int,const T*,int,const T*,int,T*,int); W_ int plasma_core_##p##ttmqr(int,int,int,int,int,int,int,int,T*,int,T*,int,const T*,int,const T*,int,T*,int); W_ int plasma_core_##p##ttmlq(int,int,int,int,int,int,int,int,T*,int,T*,int,const T*,int,const T*,int,T*,int); \
W_ int plasma_core_##p##UN##mqr(int,int,int,int,int,int,const T*,int,const T*,int,T*,int,T*,int); W_ int plasma_core_##p##UN##mlq(int,int,int,int,int,int,const T*,int,const T*,int,T*,int,T*,int); \
W_ int plasma_core_##p##parfb(int,int,int,int,int,int,int,int,int,int,T*,int,T*,int,const T*,int,const T*,int,T*,int); W_ int plasma_core_##p##pamm(int,int,int,int,int,int,int,const T*,int,T*,int,const T*,int,T*,int); W_ int plasma_core_##p##pemv(int,int,int,int,int,T,const T*,int,const T*,int,T,T*,int,T*); \
W_ int plasma_core_##p##larfb_gemm(int,int,int,int,int,int,int,const T*,int,const T*,int,T*,int,T*,int); \
W_ void plasma_core_##p##gemm(int,int,int,int,int,T,const T*,int,const T*,int,T,T*,int); W_ void plasma_core_##p##symm(int,int,int,int,T,const T*,int,const T*,int,T,T*,int); W_ void plasma_core_##p##syrk(int,int,int,int,T,const T*,int,T,T*,int); W_ void plasma_core_##p##syr2k(int,int,int,int,T,const T*,int,const T*,int,T,T*,int); \
W_ void plasma_core_##p##trmm(int,int,int,int,int,int,T,const T*,int,T*,int); W_ void plasma_core_##p##trsm(int,int,int,int,int,int,T,const T*,int,T*,int); \
W_ void plasma_core_##p##lacpy(int,int,int,int,const T*,int,T*,int); W_ void plasma_core_##p##lascl(int,R,R,int,int,T*,int); W_ void plasma_core_##p##laset(int,int,int,T,T,T*,int); \
W_ void plasma_core_##p##lange(int,int,int,const T*,int,R*,R*); W_ void plasma_core_##p##lansy(int,int,int,const T*,int,R*,R*); W_ void plasma_core_##p##lantr(int,int,int,int,int,const T*,int,R*,R*); \
W_ void plasma_core_##p##gessq(int,int,const T*,int,R*,R*); W_ void plasma_core_##p##syssq(int,int,const T*,int,R*,R*); W_ void plasma_core_##p##trssq(int,int,int,int,const T*,int,R*,R*); \
W_ int plasma_core_##p##lauum(int,int,T*,int); W_ int plasma_core_##p##potrf(int,int,T*,int); W_ int plasma_core_##p##trtri(int,int,int,T*,int); W_ int plasma_core_##p##HE##gst(int,int,int,T*,int,T*,int); \
W_ void plasma_core_##p##geswp(int,plasma_desc_t,int,int,const int*,int); \
W_ void plasma_core_omp_##p##lange_aux(int,int,int,const T*,int,R*,SQ); W_ void plasma_core_omp_##p##lansy_aux(int,int,int,const T*,int,R*,SQ); W_ void plasma_core_omp_##p##lantr_aux(int,int,int,int,int,const T*,int,R*,SQ); \
W_ void plasma_core_omp_##p##gessq_aux(int,const R*,const R*,R*,SQ); W_ void plasma_core_omp_##p##syssq_aux(int,int,const R*,const R*,R*,SQ); W_ void plasma_core_omp_##AM(int,int,int,const T*,int,R*,SQ); \
} template<> struct KB<T> { static constexpr auto geadd = plasma_core_##p##geadd; static constexpr auto tradd = plasma_core_##p##tradd; static constexpr auto gelqt = plasma_core_##p##gelqt, geqrt = plasma_core_##p##geqrt; \
static constexpr auto tsqrt = plasma_core_##p##tsqrt, tslqt = plasma_core_##p##tslqt, ttqrt = plasma_core_##p##ttqrt, ttlqt = plasma_core_##p##ttlqt; static constexpr auto tsmqr = plasma_core_##p##tsmqr, tsmlq = plasma_core_##p##tsmlq, ttmqr = plasma_core_##p##ttmqr, ttmlq = plasma_core_##p##ttmlq; \
static constexpr auto unmqr = plasma_core_##p##UN##mqr, unmlq = plasma_core_##p##UN##mlq; static constexpr auto parfb = plasma_core_##p##parfb; static constexpr auto pamm = plasma_core_##p##pamm; static constexpr auto pemv = plasma_core_##p##pemv; static constexpr auto larfb = plasma_core_##p##larfb_gemm; \
static constexpr auto gemm = plasma_core_##p##gemm; static constexpr auto symm = plasma_core_##p##symm; static constexpr auto syrk = plasma_core_##p##syrk; static constexpr auto syr2k = plasma_core_##p##syr2k; static constexpr auto trmm = plasma_core_##p##trmm, trsm = plasma_core_##p##trsm; \
static constexpr auto lacpy = plasma_core_##p##lacpy; static constexpr auto lascl = plasma_core_##p##lascl; static constexpr auto laset = plasma_core_##p##laset; static constexpr auto lange = plasma_core_##p##lange; static constexpr auto lansy = plasma_core_##p##lansy; static constexpr auto lantr = plasma_core_##p##lantr; \
static constexpr auto gessq = plasma_core_##p##gessq; static constexpr auto syssq = plasma_core_##p##syssq; static constexpr auto trssq = plasma_core_##p##trssq; static constexpr auto lauum = plasma_core_##p##lauum, potrf = plasma_core_##p##potrf; static constexpr auto trtri = plasma_core_##p##trtri; static constexpr auto hegst = plasma_core_##p##HE##gst; \
static constexpr auto geswp = plasma_core_##p##geswp; static constexpr auto lange_aux = plasma_core_omp_##p##lange_aux; static constexpr auto lansy_aux = plasma_core_omp_##p##lansy_aux; static constexpr auto lantr_aux = plasma_core_omp_##p##lantr_aux; static constexpr auto gessq_aux = plasma_core_omp_##p##gessq_aux; static constexpr auto syssq_aux = plasma_core_omp_##p##syssq_aux; static constexpr auto amax = plasma_core_omp_##AM; };
template<class T> struct KB;
DK(s, s_t, float, or, sy, po, samax) DK(d, d_t, double, or, sy, po, damax) DK(c, c_t, float, un, he, po, scamax) DK(z, z_t, double, un, he, po, dzamax)
#define DH(p, T, R) extern "C" { W_ void plasma_core_##p##hemm(int,int,int,int,T,const T*,int,const T*,int,T,T*,int); W_ void plasma_core_##p##herk(int,int,int,int,R,const T*,int,R,T*,int); W_ void plasma_core_##p##her2k(int,int,int,int,T,const T*,int,const T*,int,R,T*,int); W_ void plasma_core_##p##lanhe(int,int,int,const T*,int,R*,R*); W_ void plasma_core_##p##hessq(int,int,const T*,int,R*,R*); W_ void plasma_core_omp_##p##lanhe_aux(int,int,int,const T*,int,R*,SQ); } \
template<> struct KH<T> { static constexpr auto hemm = plasma_core_##p##hemm; static constexpr auto herk = plasma_core_##p##herk; static constexpr auto her2k = plasma_core_##p##her2k; static constexpr auto lanhe = plasma_core_##p##lanhe; static constexpr auto hessq = plasma_core_##p##hessq; static constexpr auto lanhe_aux = plasma_core_omp_##p##lanhe_aux; };
template<class T> struct KH;
DH(c, c_t, float) DH(z, z_t, double)
extern "C" {
W_ int plasma_core_zlag2c(int,int,z_t*,int,c_t*,int); W_ void plasma_core_clag2z(int,int,c_t*,int,z_t*,int); W_ int plasma_core_dlag2s(int,int,d_t*,int,s_t*,int); W_ void plasma_core_slag2d(int,int,s_t*,int,d_t*,int);
W_ float plasma_core_scabs1(c_t); W_ double plasma_core_dcabs1(z_t);
}
namespace {
const Z NN(NAN, NAN);
struct Reg_ { std::function<void()> f; };
void reg_(void *v) { if (mc_omp_get_thread_num() == 0) ((Reg_ *)v)->f(); }
void in_region(std::function<void()> f) { Reg_ r{f}; mc_GOMP_parallel(reg_, &r, 0, 0); }
bool in_tri(int uplo, int i, int j) { return uplo == PlasmaGeneral || (uplo == PlasmaLower ? i >= j : i <= j); }
template<class T> T sv(Z s) { return mk<T>(s); }
const Z SC[] = {Z(0), Z(1), Z(-2, 1)};
// ---- Householder kernels
// Q of an accumulated set of block reflectors: rows v of V, T blocks; lq: V holds rows
Mat breflect(const Mat &V, const Mat &Tm, int k, int ib, bool lq) {
    if (!ib) return eye(lq ? V.n : V.m, lq ? V.n : V.m);      // no inner blocks: nothing to apply
    int o = lq ? V.n : V.m; Mat Q = eye(o, o);
    for (int i = 0; i < k; i += ib) {
        int sb = std::min(ib, k - i); Mat t = trian(sub(Tm, 0, i, sb, sb), PlasmaUpper, false);
        Mat v = lq ? ct(sub(V, i, 0, sb, o)) : sub(V, 0, i, o, sb);
        Q = Q * (eye(o, o) - v * t * ct(v));
    }
    return lq ? ct(Q) : Q;      // A = Q R; A = L Q
}
// kinds: 0 general, 1 all zero, 2 last column (row) zero, 3 nothing to annihilate, 4 zero below/right of the first, 5 ones
template<class T> void kind_fill(Cx &c, Arr<T> A, int kind, bool lq) {
    c.fill_uni(A);
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) {
        int r = lq ? j : i, q = lq ? i : j, last = (lq ? A.m : A.n) - 1;
        if (kind == 1 || (kind == 2 && q == last) || (kind == 4 && r > 0) || (kind == 3 && r > q)) A.set(i, j, 0);
        if (kind == 5) A.set(i, j, Z(1));
    }
}
template<class T> void qrt(Cx &c, bool lq, int m, int n, int ib, int kind, int pad) {
    auto f = lq ? KB<T>::gelqt : KB<T>::geqrt; if (!f) return;
    int q = lq ? m : n, k = std::min(m, n);
    auto A = c.out<T>("A", m, n, pad), Tm = c.out<T>("T", std::max(ib, 1), std::max(q, 1), pad), tau = c.out<T>("tau", std::max(q, 1), 1), W = c.out<T>("work", std::max(1, ib * q), 1);
    kind_fill(c, A, kind, lq); c.fill_nan(Tm); c.fill_nan(tau); c.fill_nan(W);
    Mat a = A.get();
    c.call([&] { return f(m, n, ib, A.p, A.ld, Tm.p, Tm.ld, tau.p, W.p); }, lq ? "core gelqt" : "core geqrt");
    if (!c.ok()) return;
    if (!m || !n) return;
    Mat g = A.get(), V = lq ? trian(sub(g, 0, 0, k, n), PlasmaUpper, true) : trian(sub(g, 0, 0, m, k), PlasmaLower, true);
    Mat R = trian(g, lq ? PlasmaLower : PlasmaUpper, false), Q = breflect(V, Tm.get(), k, ib, lq);
    if (!c.near_("Q^H*Q", ct(Q) * Q, eye(Q.m, Q.m), Tr<T>::tol() * 10)) return;
    c.near_(lq ? "L*Q" : "Q*R", lq ? R * Q : Q * R, a, Tr<T>::tol() * 10);
}
// two tiles: A1 triangular n x n (lq: m x m), A2 m x n, full or (tt) trapezoidal
template<class T> void tsqrt(Cx &c, bool lq, bool tt, int m, int n, int ib, int kind, int pad) {
    auto f = lq ? (tt ? KB<T>::ttlqt : KB<T>::tslqt) : (tt ? KB<T>::ttqrt : KB<T>::tsqrt); if (!f) return;
    int q = lq ? m : n;       // order of A1
    auto A1 = c.out<T>("A1", q, q, 2 * pad), A2 = c.out<T>("A2", m, n, pad), Tm = c.out<T>("T", ib, std::max(q, 1), pad), tau = c.out<T>("tau", std::max(q, 1), 1), W = c.out<T>("work", std::max(1, ib * q), 1);
    c.fill_uni(A1); kind_fill(c, A2, kind >= 10 ? kind - 10 : kind, lq); if (kind >= 10) kind_fill(c, A1, kind - 10, lq);
    for (int j = 0; j < q; j++) for (int i = 0; i < q; i++) if (lq ? i < j : i > j) A1.set(i, j, NN);
    if (tt) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (lq ? i < j : i > j) A2.set(i, j, NN);
    c.fill_nan(Tm); c.fill_nan(tau); c.fill_nan(W);
    auto t2 = [&](const Mat &x) { return tt ? trian(x, lq ? PlasmaLower : PlasmaUpper, false) : x; };
    Mat a1 = trian(A1.get(), lq ? PlasmaLower : PlasmaUpper, false), a2 = t2(A2.get());
    c.call([&] { return f(m, n, ib, A1.p, A1.ld, A2.p, A2.ld, Tm.p, Tm.ld, tau.p, W.p); }, "core two-tile factorization");
    if (!c.ok()) return;
    if (!c.same("A1", A1, [&](int i, int j) { return (lq ? i < j : i > j) || !m || !n; })) return;
    if (tt && !c.same("A2", A2, [&](int i, int j) { return lq ? i < j : i > j; })) return;
    if (!m || !n) return;
    Mat r = trian(A1.get(), lq ? PlasmaLower : PlasmaUpper, false), v = t2(A2.get());
    int o = lq ? m + n : n + m; Mat V = lq ? Mat(q, o) : Mat(o, q), a = lq ? Mat(q, o) : Mat(o, q), R = a;
    for (int i = 0; i < q; i++) V(i, i) = 1;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { if (lq) { V(i, q + j) = v(i, j); a(i, q + j) = a2(i, j); } else { V(q + i, j) = v(i, j); a(q + i, j) = a2(i, j); } }
    for (int j = 0; j < q; j++) for (int i = 0; i < q; i++) { a(i, j) = a1(i, j); R(i, j) = r(i, j); }
    Mat Q = breflect(V, Tm.get(), q, ib, lq);
    if (!c.near_("Q^H*Q", ct(Q) * Q, eye(o, o), Tr<T>::tol() * 10)) return;
    c.near_(lq ? "L*Q" : "Q*R", lq ? R * Q : Q * R, a, Tr<T>::tol() * 10);
}
// apply: any V and T
template<class T> void unm(Cx &c, bool lq, int side, int trans, int m, int n, int k, int ib, int pad) {
    auto f = lq ? KB<T>::unmlq : KB<T>::unmqr; if (!f) return;
    int o = side == PlasmaLeft ? m : n, lw = side == PlasmaLeft ? n : m;
    auto V = lq ? c.in<T>("A", k, o, pad) : c.in<T>("A", o, k, pad); auto Tm = c.in<T>("T", std::max(ib, 1), std::max(k, 1), pad);
    auto C = c.out<T>("C", m, n, pad), W = c.out<T>("work", std::max(1, lw), std::max(1, ib), 0);
    c.fill_int(V, 2); c.fill_int(Tm, 1); c.fill_int(C); c.fill_nan(W);
    for (int j = 0; j < V.n; j++) for (int i = 0; i < V.m; i++) if (lq ? i >= j : i <= j) V.set(i, j, NN);
    for (int i = 0; i < k; i++) for (int r = 0; r < ib; r++) if (ib && r > i % ib) Tm.set(r, i, NN);
    Mat q = breflect(trian(V.get(), lq ? PlasmaUpper : PlasmaLower, true), Tm.get(), k, ib, lq), cc = C.get();
    if (trans != PlasmaNoTrans) q = ct(q);
    c.call([&] { return f(side, trans, m, n, k, ib, V.p, V.ld, Tm.p, Tm.ld, C.p, C.ld, W.p, std::max(1, lw)); }, lq ? "core unmlq" : "core unmqr");
    if (!c.ok()) return;
    c.cmp("C", C, side == PlasmaLeft ? q * cc : cc * q, 10);
}
template<class T> void tsm(Cx &c, bool lq, bool tt, int side, int trans, int m1, int n1, int m2, int n2, int k, int ib, int pad) {
    auto f = lq ? (tt ? KB<T>::ttmlq : KB<T>::tsmlq) : (tt ? KB<T>::ttmqr : KB<T>::tsmqr); if (!f) return;
    bool L = side == PlasmaLeft; int o1 = L ? m1 : n1, o2 = L ? m2 : n2;
    auto V = lq ? c.in<T>("V", k, o2, pad) : c.in<T>("V", o2, k, pad); auto Tm = c.in<T>("T", std::max(ib, 1), std::max(k, 1), pad);
    int ldw = L ? ib : m1, nw = L ? (lq ? std::max(m1, n1) : n1) : ib; ldw = std::max(1, ldw);
    auto A1 = c.out<T>("A1", m1, n1, pad), A2 = c.out<T>("A2", m2, n2, 2 * pad), W = c.out<T>("work", ldw, std::max(1, nw), pad);
    c.fill_int(V, 2); c.fill_int(Tm, 1); c.fill_int(A1); c.fill_int(A2); c.fill_nan(W);
    if (!o2) for (int j = 0; j < k; j++) for (int i = 0; i < ib; i++) Tm.set(i, j, 0);    // nothing to eliminate: the reflectors are the identity
    if (tt) for (int j = 0; j < V.n; j++) for (int i = 0; i < V.m; i++) if (lq ? i < j : i > j) V.set(i, j, NN);
    for (int i = 0; i < k; i++) for (int r = 0; r < ib; r++) if (ib && r > i % ib) Tm.set(r, i, NN);
    Mat v = tt ? trian(V.get(), lq ? PlasmaLower : PlasmaUpper, false) : V.get(), full = lq ? Mat(k, o1 + o2) : Mat(o1 + o2, k);
    for (int i = 0; i < k; i++) { full(i, i) = 1; for (int j = 0; j < o2; j++) { if (lq) full(i, o1 + j) = v(i, j); else full(o1 + j, i) = v(j, i); } }
    Mat q = breflect(full, Tm.get(), k, ib, lq); if (trans != PlasmaNoTrans) q = ct(q);
    Mat a(L ? m1 + m2 : m1, L ? n1 : n1 + n2), a1 = A1.get(), a2 = A2.get();
    for (int j = 0; j < n1; j++) for (int i = 0; i < m1; i++) a(i, j) = a1(i, j);
    for (int j = 0; j < n2; j++) for (int i = 0; i < m2; i++) (L ? a(m1 + i, j) : a(i, n1 + j)) = a2(i, j);
    c.call([&] { return f(side, trans, m1, n1, m2, n2, k, ib, A1.p, A1.ld, A2.p, A2.ld, V.p, V.ld, Tm.p, Tm.ld, W.p, W.ld); }, "core two-tile apply");
    if (!c.ok()) return;
    Mat r = L ? q * a : a * q;
    if (c.cmp("A1", A1, sub(r, 0, 0, m1, n1), 10)) c.cmp("A2", A2, L ? sub(r, m1, 0, m2, n2) : sub(r, 0, n1, m2, n2), 10);
}
// pentagonal V: with rows = its long side; element (i,j), i along the long side
bool penta(int i, int j, int rows, int l) { return i < rows - l || j >= l || i - (rows - l) <= j; }
template<class T> void parfb(Cx &c, int side, int trans, int storev, int m1, int n1, int m2, int n2, int k, int l, int pad) {
    auto f = KB<T>::parfb; if (!f) return;
    bool L = side == PlasmaLeft, cw = storev == PlasmaColumnwise; int o1 = L ? m1 : n1, o2 = L ? m2 : n2;
    auto V = cw ? c.in<T>("V", o2, k, pad) : c.in<T>("V", k, o2, pad); auto Tm = c.in<T>("T", k, k, pad);
    auto A1 = c.out<T>("A1", m1, n1, pad), A2 = c.out<T>("A2", m2, n2, 2 * pad), W = c.out<T>("work", L ? k : m1, L ? n1 : k, pad);
    c.fill_int(V, 2); c.fill_int(Tm, 1); c.fill_int(A1); c.fill_int(A2); c.fill_nan(W);
    Mat full(o1 + o2, k);
    for (int j = 0; j < k; j++) { full(j, j) = 1; for (int i = 0; i < o2; i++) { int r = cw ? i : j, s = cw ? j : i; if (!penta(i, j, o2, l)) { V.set(r, s, NN); full(o1 + i, j) = 0; } else full(o1 + i, j) = cw ? V.at(r, s) : std::conj(V.at(r, s)); } }
    for (int j = 0; j < k; j++) for (int i = j + 1; i < k; i++) Tm.set(i, j, NN);
    Mat t = trian(Tm.get(), PlasmaUpper, false), h = eye(o1 + o2, o1 + o2) - full * (trans == PlasmaNoTrans ? t : ct(t)) * ct(full);
    Mat a(L ? m1 + m2 : m1, L ? n1 : n1 + n2), a1 = A1.get(), a2 = A2.get();
    for (int j = 0; j < n1; j++) for (int i = 0; i < m1; i++) a(i, j) = a1(i, j);
    for (int j = 0; j < n2; j++) for (int i = 0; i < m2; i++) (L ? a(m1 + i, j) : a(i, n1 + j)) = a2(i, j);
    c.call([&] { return f(side, trans, PlasmaForward, storev, m1, n1, m2, n2, k, l, A1.p, A1.ld, A2.p, A2.ld, V.p, V.ld, Tm.p, Tm.ld, W.p, W.ld); }, "core parfb");
    if (!c.ok()) return;
    Mat r = L ? h * a : a * h;
    if (c.cmp("A1", A1, sub(r, 0, 0, m1, n1), 10)) c.cmp("A2", A2, L ? sub(r, m1, 0, m2, n2) : sub(r, 0, n1, m2, n2), 10);
}
template<class T> void pemv(Cx &c, int trans, int storev, int m, int n, int l, Z al, Z be, int inc, int pad) {
    auto f = KB<T>::pemv; if (!f) return;
    bool cw = storev == PlasmaColumnwise; int nx = cw ? m : n, ny = cw ? n : m;
    auto A = c.in<T>("A", m, n, pad), X = c.in<T>("X", 1, nx, inc - 1), Y = c.out<T>("Y", 1, ny, inc - 1), W = c.out<T>("work", std::max(1, l), 1);
    c.fill_int(A); c.fill_int(X); c.fill_int(Y); c.fill_nan(W);
    Mat a = A.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!(cw ? penta(i, j, m, l) : penta(j, i, n, l))) { A.set(i, j, NN); a(i, j) = 0; }
    Mat x = tr(X.get()), r = scale(up(sv<T>(al)), op(a, trans) * x) + scale(up(sv<T>(be)), tr(Y.get()));
    if (be == Z(0)) { c.fill_nan(Y); if (inc > 1) for (int j = 0; j < ny; j++) for (int i = 1; i < inc; i++) Y.p[j * inc + i] = 0; }
    c.call([&] { return f(trans, storev, m, n, l, sv<T>(al), A.p, A.ld, X.p, X.ld, sv<T>(be), Y.p, Y.ld, W.p); }, "core pemv");
    if (!c.ok()) return;
    c.near_("Y", tr(Y.get()), r, Tr<T>::tol());
}
template<class T> void larfb(Cx &c, int side, int trans, int m, int n, int k, int pad) {
    auto f = KB<T>::larfb; if (!f) return;
    bool L = side == PlasmaLeft; int o = L ? m : n;
    auto V = c.in<T>("V", o, k, pad), Tm = c.in<T>("T", k, k, pad), C = c.out<T>("C", m, n, pad), W = c.out<T>("work", L ? n : m, k, 0);
    c.fill_int(V, 2); c.fill_int(Tm, 1); c.fill_int(C); c.fill_nan(W);
    for (int j = 0; j < k; j++) for (int i = 0; i <= j && i < o; i++) V.set(i, j, i == j ? 1 : 0);
    for (int j = 0; j < k; j++) for (int i = j + 1; i < k; i++) Tm.set(i, j, NN);
    Mat t = trian(Tm.get(), PlasmaUpper, false), v = V.get(), h = eye(o, o) - v * (trans == PlasmaNoTrans ? t : ct(t)) * ct(v), a = C.get();
    c.call([&] { return f(side, trans, PlasmaForward, PlasmaColumnwise, m, n, k, V.p, V.ld, Tm.p, Tm.ld, C.p, C.ld, W.p, W.ld); }, "core larfb");
    if (!c.ok()) return;
    c.cmp("C", C, L ? h * a : a * h, 10);
}
// ---- elementwise
template<class T> void geadd(Cx &c, int uplo, int ta, int m, int n, Z al, Z be, int pad) {
    if (uplo == PlasmaGeneral ? !KB<T>::geadd : !KB<T>::tradd) return;
    auto A = ta == PlasmaNoTrans ? c.in<T>("A", m, n, pad) : c.in<T>("A", n, m, pad); auto B = c.out<T>("B", m, n, 2 * pad);
    c.fill_int(A); c.fill_int(B); Mat r = scale(up(sv<T>(al)), op(A.get(), ta)) + scale(up(sv<T>(be)), B.get());
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) { B.set(i, j, NN); if (ta == PlasmaNoTrans) A.set(i, j, NN); else A.set(j, i, NN); r(i, j) = 0; }
    c.call([&] { return uplo == PlasmaGeneral ? KB<T>::geadd(ta, m, n, sv<T>(al), A.p, A.ld, sv<T>(be), B.p, B.ld) : KB<T>::tradd(uplo, ta, m, n, sv<T>(al), A.p, A.ld, sv<T>(be), B.p, B.ld); }, "core add");
    if (!c.ok()) return;
    if (!c.same("B", B, [&](int i, int j) { return !in_tri(uplo, i, j); })) return;
    Mat g = B.get(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) g(i, j) = 0;
    c.near_("B", g, r, Tr<T>::tol());
}
template<class T> void lacpy(Cx &c, int uplo, int ta, int m, int n, int pad) {
    if (!KB<T>::lacpy) return;
    int bm = ta == PlasmaNoTrans ? m : n, bn = ta == PlasmaNoTrans ? n : m;
    auto A = c.in<T>("A", m, n, pad), B = c.out<T>("B", bm, bn, 2 * pad); c.fill_int(A); c.fill_int(B); Mat r = op(A.get(), ta);
    auto use = [=](int i, int j) { return ta == PlasmaNoTrans ? in_tri(uplo, i, j) : in_tri(uplo, j, i); };
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) A.set(i, j, NN);
    c.call([&] { KB<T>::lacpy(uplo, ta, m, n, A.p, A.ld, B.p, B.ld); return 0; }, "core lacpy");
    if (!c.same("B", B, [&](int i, int j) { return !use(i, j); })) return;
    Mat g = B.get(); for (int j = 0; j < bn; j++) for (int i = 0; i < bm; i++) if (!use(i, j)) g(i, j) = r(i, j) = 0;
    c.near_("B", g, r, 0);
}
template<class T> void lascl(Cx &c, int uplo, double f, double t, int m, int n, int pad) {
    typedef typename Tr<T>::R R; if (!KB<T>::lascl) return;
    auto A = c.out<T>("A", m, n, pad); c.fill_int(A); Mat r = scale(t / f, A.get());
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) { A.set(i, j, NN); r(i, j) = 0; }
    c.call([&] { KB<T>::lascl(uplo, (R)f, (R)t, m, n, A.p, A.ld); return 0; }, "core lascl");
    if (!c.same("A", A, [&](int i, int j) { return !in_tri(uplo, i, j); })) return;
    Mat g = A.get(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) g(i, j) = 0;
    c.near_("A", g, r, Tr<T>::tol());
}
template<class T> void laset(Cx &c, int uplo, Z al, Z be, int m, int n, int pad) {
    if (!KB<T>::laset) return;
    auto A = c.out<T>("A", m, n, pad); c.fill_nan(A); Mat r(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) r(i, j) = in_tri(uplo, i, j) ? up(sv<T>(i == j ? be : al)) : Z(0);
    c.call([&] { KB<T>::laset(uplo, m, n, sv<T>(al), sv<T>(be), A.p, A.ld); return 0; }, "core laset");
    if (!c.same("A", A, [&](int i, int j) { return !in_tri(uplo, i, j); })) return;
    Mat g = A.get(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!in_tri(uplo, i, j)) g(i, j) = 0;
    c.near_("A", g, r, 0);
}
// ---- level 3
template<class T> void gemm(Cx &c, int ta, int tb, int m, int n, int k, Z al, Z be, int pad) {
    if (!KB<T>::gemm) return;
    auto A = ta == PlasmaNoTrans ? c.in<T>("A", m, k, pad) : c.in<T>("A", k, m, pad), B = tb == PlasmaNoTrans ? c.in<T>("B", k, n, 2 * pad) : c.in<T>("B", n, k, 2 * pad); auto C = c.out<T>("C", m, n, pad);
    c.fill_int(A); c.fill_int(B); c.fill_int(C); Mat r = scale(up(sv<T>(al)), op(A.get(), ta) * op(B.get(), tb)) + scale(up(sv<T>(be)), C.get());
    if (be == Z(0)) c.fill_nan(C);
    c.call([&] { KB<T>::gemm(ta, tb, m, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); return 0; }, "core gemm"); c.cmp("C", C, r);
}
template<class T> void symm(Cx &c, bool he, int side, int uplo, int m, int n, Z al, Z be, int pad) {
    int na = side == PlasmaLeft ? m : n; auto A = c.in<T>("A", na, na, pad), B = c.in<T>("B", m, n, 2 * pad), C = c.out<T>("C", m, n, pad);
    c.fill_int(A); c.fill_int(B); c.fill_int(C);
    for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) if (!in_tri(uplo, i, j)) A.set(i, j, NN);
    Mat a = herm(A.get(), uplo, he), r = scale(up(sv<T>(al)), side == PlasmaLeft ? a * B.get() : B.get() * a) + scale(up(sv<T>(be)), C.get());
    if (be == Z(0)) c.fill_nan(C);
    c.call([&] {
        if constexpr (Tr<T>::cx) if (he) { KH<T>::hemm(side, uplo, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); return 0; }
        KB<T>::symm(side, uplo, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); return 0; }, "core symm");
    c.cmp("C", C, r);
}
template<class T> void rk(Cx &c, bool he, bool two, int uplo, int trans, int n, int k, Z al, Z be, int pad) {
    typedef typename Tr<T>::R R; bool N = trans == PlasmaNoTrans;
    auto A = N ? c.in<T>("A", n, k, pad) : c.in<T>("A", k, n, pad); Arr<T> B = A; if (two) B = N ? c.in<T>("B", n, k, 2 * pad) : c.in<T>("B", k, n, 2 * pad); auto C = c.out<T>("C", n, n, pad);
    c.fill_int(A); if (two) c.fill_int(B); c.fill_int(C); if (he) for (int i = 0; i < n; i++) C.set(i, i, C.at(i, i).real());
    auto t = [&](const Mat &x) { return he ? ct(x) : tr(x); }; Mat a = N ? A.get() : t(A.get()), b = N ? B.get() : t(B.get());
    Z za = he && !two ? Z(al.real()) : up(sv<T>(al)), zb = he ? Z(be.real()) : up(sv<T>(be));
    Mat r = (two ? scale(za, a * t(b)) + scale(he ? std::conj(za) : za, b * t(a)) : scale(za, a * t(a))) + scale(zb, C.get());
    if (zb == Z(0)) c.fill_nan(C);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in_tri(uplo, i, j)) C.set(i, j, NN);
    c.call([&] {
        if constexpr (Tr<T>::cx) if (he) { if (two) KH<T>::her2k(uplo, trans, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, (R)be.real(), C.p, C.ld); else KH<T>::herk(uplo, trans, n, k, (R)al.real(), A.p, A.ld, (R)be.real(), C.p, C.ld); return 0; }
        if (two) KB<T>::syr2k(uplo, trans, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); else KB<T>::syrk(uplo, trans, n, k, sv<T>(al), A.p, A.ld, sv<T>(be), C.p, C.ld); return 0; }, "core rank-k");
    if (!c.same("C", C, [&](int i, int j) { return !in_tri(uplo, i, j); })) return;
    Mat g = C.get(); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!in_tri(uplo, i, j)) g(i, j) = r(i, j) = 0;
    c.near_("C", g, r, Tr<T>::tol());
}
template<class T> void trm(Cx &c, bool solve, int side, int uplo, int trans, int diag, int m, int n, Z al, int pad) {
    int na = side == PlasmaLeft ? m : n; auto A = c.in<T>("A", na, na, pad); auto B = c.out<T>("B", m, n, 2 * pad); c.fill_int(A, 1); c.fill_int(B);
    for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) { if (i == j) A.set(i, j, diag == PlasmaUnit ? NN : Z(c.irand(0, 1) ? 2 : -1, Tr<T>::cx ? c.irand(0, 1) : 0)); else if (!in_tri(uplo, i, j)) A.set(i, j, NN); }
    Mat a = op(trian(A.get(), uplo, diag == PlasmaUnit), trans), ab = scale(up(sv<T>(al)), B.get());
    c.call([&] { (solve ? KB<T>::trsm : KB<T>::trmm)(side, uplo, trans, diag, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld); return 0; }, solve ? "core trsm" : "core trmm");
    Mat x = B.get();
    if (!solve) c.near_("B", x, side == PlasmaLeft ? a * ab : ab * a, Tr<T>::tol());
    else c.near_("op(A)*X", side == PlasmaLeft ? a * x : x * a, ab, Tr<T>::tol(), 1 + a.maxabs() * x.maxabs() * na);
}
// ---- triangular factors
template<class T> Mat tri_mat(Cx &c, int n, int uplo, bool posdiag) {
    Mat a(n, n); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (in_tri(uplo, i, j)) a(i, j) = i == j ? Z(1.5 + 0.25 * (i % 3), !posdiag && Tr<T>::cx ? 0.5 : 0) : c.ival<T>(2) * 0.25;
    return a;
}
template<class T> void put_tri(Arr<T> A, const Mat &a, int uplo) { for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, in_tri(uplo, i, j) ? a(i, j) : NN); }
template<class T> bool off_same(Cx &c, Arr<T> A, int uplo) { return c.same("A", A, [&](int i, int j) { return !in_tri(uplo, i, j); }); }
template<class T> void potrf(Cx &c, int uplo, int n, int bad, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat l = tri_mat<T>(c, n, PlasmaLower, true), a = l * ct(l); if (bad >= 0) a(bad, bad) = -1;
    put_tri(A, a, uplo);
    c.call([&] { return KB<T>::potrf(uplo, n, A.p, A.ld); }, "core potrf");
    if (!c.want(c.rc, bad >= 0 ? bad + 1 : 0, "core potrf")) return;
    if (!off_same(c, A, uplo) || bad >= 0) return;
    Mat f = trian(A.get(), uplo, false); c.near_("product of the factors", uplo == PlasmaLower ? f * ct(f) : ct(f) * f, a, Tr<T>::tol());
}
template<class T> void lauum(Cx &c, int uplo, int n, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat a = tri_mat<T>(c, n, uplo, true); put_tri(A, a, uplo);   // LAPACK takes the diagonal to be real
    c.call([&] { return KB<T>::lauum(uplo, n, A.p, A.ld); }, "core lauum"); if (!c.ok() || !off_same(c, A, uplo)) return;
    c.near_("product", trian(A.get(), uplo, false), trian(uplo == PlasmaLower ? ct(a) * a : a * ct(a), uplo, false), Tr<T>::tol());
}
template<class T> void trtri(Cx &c, int uplo, int diag, int n, int bad, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat a = tri_mat<T>(c, n, uplo, false); if (bad >= 0) a(bad, bad) = 0; put_tri(A, a, uplo);
    if (diag == PlasmaUnit) for (int i = 0; i < n; i++) { A.set(i, i, NN); a(i, i) = 1; }
    c.call([&] { return KB<T>::trtri(uplo, diag, n, A.p, A.ld); }, "core trtri");
    if (!c.want(c.rc, bad >= 0 ? bad + 1 : 0, "core trtri")) return;
    if (!off_same(c, A, uplo) || bad >= 0) return;
    if (diag == PlasmaUnit && !c.same("A", A, [](int i, int j) { return i == j; })) return;
    c.near_("A*inv(A)", a * trian(A.get(), uplo, diag == PlasmaUnit), eye(n, n), Tr<T>::tol() * 10);
}
template<class T> void hegst(Cx &c, int it, int uplo, int n, int pad) {
    if (!KB<T>::hegst) return;
    auto A = c.out<T>("A", n, n, pad), B = c.in<T>("B", n, n, pad); Mat g(n, n); for (auto &x : g.a) x = c.ival<T>(2); Mat a = g + ct(g), f = tri_mat<T>(c, n, uplo, true);
    put_tri(A, a, uplo); put_tri(B, f, uplo);
    c.call([&] { return KB<T>::hegst(it, uplo, n, A.p, A.ld, B.p, B.ld); }, "core hegst"); if (!c.ok() || !off_same(c, A, uplo)) return;
    Mat x = herm(A.get(), uplo, true);
    if (it == 1) c.near_("B*A'*B^H", uplo == PlasmaLower ? f * x * ct(f) : ct(f) * x * f, a, Tr<T>::tol() * 10);
    else c.near_("A'", x, uplo == PlasmaLower ? ct(f) * a * f : f * a * ct(f), Tr<T>::tol() * 10);
}
// ---- norms
const int NT[4] = {PlasmaMaxNorm, PlasmaOneNorm, PlasmaInfNorm, PlasmaFrobeniusNorm};
double nref(const Mat &a, int nt) {
    double r = 0;
    if (nt == PlasmaMaxNorm) return a.maxabs();
    if (nt == PlasmaOneNorm) { for (int j = 0; j < a.n; j++) { double s = 0; for (int i = 0; i < a.m; i++) s += std::abs(a(i, j)); r = std::max(r, s); } return r; }
    if (nt == PlasmaInfNorm) return nref(tr(a), PlasmaOneNorm);
    for (auto &x : a.a) r += std::norm(x);
    return std::sqrt(r);
}
enum Shape { GE, SY, HE, TR };
template<class T> Mat shaped(Cx &c, Arr<T> A, int sh, int uplo, int diag) {
    c.fill_int(A, 4); Mat a = A.get();
    if (sh == SY || sh == HE) { a = herm(a, uplo, sh == HE); for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) if (!in_tri(uplo, i, j)) A.set(i, j, NN); if (sh == HE && Tr<T>::cx) for (int i = 0; i < A.n; i++) A.set(i, i, Z(A.at(i, i).real(), NAN)); }
    if (sh == TR) { a = trian(a, uplo, diag == PlasmaUnit); for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) if (!in_tri(uplo, i, j) || (i == j && diag == PlasmaUnit)) A.set(i, j, NN); }
    return a;
}
template<class T> void norm(Cx &c, int sh, int nt, int uplo, int diag, int m, int n, int pad) {
    typedef typename Tr<T>::R R; auto A = c.in<T>("A", m, n, pad); Mat a = shaped(c, A, sh, uplo, diag); double ref = nref(a, nt);
    auto W = c.out<R>("work", std::max(1, std::max(m, sh == SY || sh == HE ? n : 0)), 1), V = c.out<R>("value", 1, 1); c.fill_nan(W); c.fill_nan(V);
    c.call([&] {
        if (sh == GE) KB<T>::lange(nt, m, n, A.p, A.ld, W.p, V.p); else if (sh == TR) KB<T>::lantr(nt, uplo, diag, m, n, A.p, A.ld, W.p, V.p); else if (sh == SY) KB<T>::lansy(nt, uplo, n, A.p, A.ld, W.p, V.p);
        else if constexpr (Tr<T>::cx) KH<T>::lanhe(nt, uplo, n, A.p, A.ld, W.p, V.p);
        return 0; }, "core norm");
    double v = V.at(0, 0).real(); if (!(std::abs(v - ref) <= Tr<T>::tol() * (1 + ref))) c.badf(NUM, "norm = %.12g, expected %.12g", v, ref);
}
// row or column sums (maxima) of a tile, by a task
template<class T> void norm_aux(Cx &c, int sh, int nt, int uplo, int diag, int m, int n, int pad) {
    typedef typename Tr<T>::R R; auto A = c.in<T>("A", m, n, pad); Mat a = shaped(c, A, sh, uplo, diag);
    bool cols = nt == PlasmaOneNorm, mx = nt == PlasmaColumnwise || nt == PlasmaRowwise; if (nt == PlasmaColumnwise) cols = true;
    int len = cols ? n : m; auto V = c.out<R>("value", len, 1); c.fill_nan(V); Mat r(len, 1);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { Z &x = r(cols ? j : i, 0); if (mx) x = std::max(x.real(), std::abs(a(i, j).real()) + std::abs(a(i, j).imag())); else x += std::abs(a(i, j)); }
    plasma_sequence_t q; plasma_request_t rq; plasma_sequence_init(&q); plasma_request_init(&rq);
    bool have = true;
    c.call([&] { in_region([&] {
        if (mx) { if (KB<T>::amax) KB<T>::amax(nt, m, n, A.p, A.ld, V.p, &q, &rq); else have = false; }
        else if (sh == GE) { if (KB<T>::lange_aux) KB<T>::lange_aux(nt, m, n, A.p, A.ld, V.p, &q, &rq); else have = false; } else if (sh == TR) { if (KB<T>::lantr_aux) KB<T>::lantr_aux(nt, uplo, diag, m, n, A.p, A.ld, V.p, &q, &rq); else have = false; } else if (sh == SY) { if (KB<T>::lansy_aux) KB<T>::lansy_aux(nt, uplo, n, A.p, A.ld, V.p, &q, &rq); else have = false; }
        else if constexpr (Tr<T>::cx) { if (KH<T>::lanhe_aux) KH<T>::lanhe_aux(nt, uplo, n, A.p, A.ld, V.p, &q, &rq); else have = false; } }); return (int)q.status; }, "core partial norm");
    if (have && c.ok()) c.near_("value", V.get(), r, Tr<T>::tol());
}
template<class T> void ssq(Cx &c, int sh, int uplo, int diag, int m, int n, int pad) {
    typedef typename Tr<T>::R R; auto A = c.in<T>("A", m, n, pad); Mat a = shaped(c, A, sh, uplo, diag); double ref = nref(a, PlasmaFrobeniusNorm);
    auto S = c.out<R>("scale", 1, 1), Q = c.out<R>("sumsq", 1, 1); S.p[0] = 0; Q.p[0] = 1;
    c.call([&] {
        if (sh == GE) KB<T>::gessq(m, n, A.p, A.ld, S.p, Q.p); else if (sh == TR) KB<T>::trssq(uplo, diag, m, n, A.p, A.ld, S.p, Q.p); else if (sh == SY) KB<T>::syssq(uplo, n, A.p, A.ld, S.p, Q.p);
        else if constexpr (Tr<T>::cx) KH<T>::hessq(uplo, n, A.p, A.ld, S.p, Q.p);
        return 0; }, "core sum of squares");
    double v = S.p[0] * std::sqrt((double)Q.p[0]); if (!(std::abs(v - ref) <= Tr<T>::tol() * (1 + ref))) c.badf(NUM, "scale*sqrt(sumsq) = %.12g, expected %.12g", v, ref);
}
// sum of squares of a grid of partial results; code: base 3 digits choose 0, a small or a large scale
template<class T> void ssq_aux(Cx &c, bool sy, int m, int n, int code) {
    typedef typename Tr<T>::R R; int cnt = sy ? m * n : n; auto S = c.in<R>("scale", cnt, 1), Q = c.in<R>("sumsq", cnt, 1); auto V = c.out<R>("value", 1, 1); V.p[0] = NAN;
    double ref = 0;
    for (int j = 0; j < (sy ? n : 1); j++) for (int i = 0; i < (sy ? m : n); i++) { int x = j * (sy ? m : 0) + i, d = code % 3; if (!sy || (i >= j && i < n)) code /= 3; else { S.p[x] = NAN; Q.p[x] = NAN; continue; } S.p[x] = d == 0 ? 0 : d == 1 ? 3 : 1000; Q.p[x] = d == 0 ? 1 : 1 + x % 4; if (d == 0) continue; ref += (double)S.p[x] * S.p[x] * Q.p[x] * (sy && i != j ? 2 : 1); }
    ref = std::sqrt(ref);
    plasma_sequence_t q; plasma_request_t rq; plasma_sequence_init(&q); plasma_request_init(&rq); bool have = true;
    c.call([&] { in_region([&] { if (sy) { if (KB<T>::syssq_aux) KB<T>::syssq_aux(m, n, S.p, Q.p, V.p, &q, &rq); else have = false; } else if (KB<T>::gessq_aux) KB<T>::gessq_aux(n, S.p, Q.p, V.p, &q, &rq); else have = false; }); return (int)q.status; }, "core combined sum of squares");
    if (!have || !c.ok()) return;
    double v = V.p[0]; if (!(std::abs(v - ref) <= Tr<T>::tol() * (1 + ref))) c.badf(NUM, "value = %.12g, expected %.12g", v, ref);
}
// ---- conversions
template<class D, class S, class F> void lag2(Cx &c, F f, int m, int n, int pad) {
    if (!f) return;
    auto A = c.in<D>("A", m, n, pad); auto B = c.out<S>("As", m, n, 2 * pad); c.fill_uni(A); c.fill_nan(B); Mat r = A.get(); for (auto &x : r.a) x = up(mk<S>(x));
    c.call([&]() -> int { if constexpr (std::is_void_v<decltype(f(0, 0, A.p, 1, B.p, 1))>) { f(m, n, A.p, A.ld, B.p, B.ld); return 0; } else return f(m, n, A.p, A.ld, B.p, B.ld); }, "core conversion");
    if (c.ok()) c.near_("As", B.get(), r, 0);
}
template<class T> void cabs1(Cx &c) {
    for (int re = -2; re <= 2; re++) for (int im = -2; im <= 2; im++) { double v = 0, e = std::abs(re) + std::abs(im); if constexpr (std::is_same_v<T, c_t>) { if (!plasma_core_scabs1) return; v = plasma_core_scabs1(c_t(re, im)); } else if constexpr (std::is_same_v<T, z_t>) { if (!plasma_core_dcabs1) return; v = plasma_core_dcabs1(z_t(re, im)); } else v = e; if (v != e) c.badf(NUM, "cabs1(%d%+di) = %g", re, im, v); }
}
// ---- row and column interchanges on a tiled matrix
template<class T> void geswp(Cx &c, int cr, int m, int n, int nb, int k1, int k2, int incx, int code) {
    if (!KB<T>::geswp) return;
    int len = cr == PlasmaRowwise ? m : n; auto P = c.ints("ipiv", len, false); for (int i = 0; i < len; i++) { P.p[i] = 1 + (i + code % len) % len; code /= len; }
    plasma_desc_t A; if (plasma_desc_general_create(Tr<T>::ty, nb, nb, m, n, 0, 0, m, n, &A)) return;
    auto at = [&](int i, int j) -> T & { int ld = plasma_tile_mmain(A, i / nb); return ((T *)plasma_tile_addr(A, i / nb, j / nb))[(size_t)(j % nb) * ld + i % nb]; };
    Mat a(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { a(i, j) = Z(1 + i + 10 * j, 0); at(i, j) = mk<T>(a(i, j)); }
    // column interchanges use one tile row only
    Mat r = a; auto sw = [&](int x) { int y = P.p[x] - 1; if (cr == PlasmaRowwise) for (int j = 0; j < n; j++) std::swap(r(x, j), r(y, j)); else for (int i = 0; i < m; i++) std::swap(r(i, x), r(i, y)); };
    if (incx > 0) for (int i = k1 - 1; i <= k2 - 1; i += incx) sw(i); else for (int i = k2 - 1; i >= k1 - 1; i += incx) sw(i);
    // the kernel works on one panel of tiles: a tile column for rows, a tile row for columns
    plasma_desc_t B = cr == PlasmaRowwise ? plasma_desc_view(A, 0, 0, m, std::min(n, nb)) : plasma_desc_view(A, 0, 0, std::min(m, nb), n);
    c.call([&] { KB<T>::geswp(cr, B, k1, k2, P.p, incx); return 0; }, "core geswp");
    Mat g(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { g(i, j) = up(at(i, j)); if (cr == PlasmaRowwise ? j >= nb : i >= nb) r(i, j) = a(i, j); }
    c.near_("A", g, r, 0);
    plasma_desc_destroy(&A);
}
// ---- illegal arguments: a position and a value that is not allowed there
struct Args { long a[22]; };
template<class T> void args(Cx &c, const char *nm, Args base, int n, std::vector<std::pair<int, long>> bads, std::function<int(Cx &, long *)> f) {
    (void)n;
    for (auto &b : bads) { Args x = base; x.a[b.first] = b.second; c.outs.clear();
        c.call([&] { return f(c, x.a); }, nm);
        if (c.rc != -b.first) { c.badf(RC, "%s with argument %d = %ld returned %d", nm, b.first, b.second, c.rc); return; } }
    c.call([&] { return f(c, base.a); }, nm); if (c.rc != 0) c.badf(RC, "%s with legal arguments returned %d", nm, c.rc);
}
template<class T> void arg_cases(Cx &c, int which) {
    auto A1 = c.out<T>("A1", 4, 4), A2 = c.out<T>("A2", 4, 4), V = c.out<T>("V", 4, 4), Tm = c.out<T>("T", 4, 4), W = c.out<T>("work", 16, 1), tau = c.out<T>("tau", 4, 1);
    for (auto x : {A1, A2, V, Tm}) { c.fill_uni(x); } c.fill_uni(W);
    long a1 = (long)A1.p, a2 = (long)A2.p, v = (long)V.p, t = (long)Tm.p, w = (long)W.p, ta = (long)tau.p, junk = 7777; const int CTr = Tr<T>::cx ? PlasmaConjTrans : PlasmaTrans;
    typedef T *P; typedef std::vector<std::pair<int, long>> B; (void)ta;
    auto two = [&](const char *nm, int (*f)(int, int, int, T *, int, T *, int, T *, int, T *, T *), bool) { if (!f) return;
        args<T>(c, nm, {{0, 3, 3, 2, a1, 4, a2, 4, t, 2, ta, w}}, 11, B{{1, -1}, {2, -1}, {3, -1}, {4, 0}, {5, 2}, {5, 0}, {5, -1}, {6, 0}, {7, 2}, {7, 0}, {8, 0}, {9, 1}, {9, 0}, {10, 0}, {11, 0}},
            [=](Cx &, long *a) { return f(a[1], a[2], a[3], (P)a[4], a[5], (P)a[6], a[7], (P)a[8], a[9], (P)a[10], (P)a[11]); }); };
    auto app = [&](const char *nm, int (*f)(int, int, int, int, int, int, int, int, T *, int, T *, int, const T *, int, const T *, int, T *, int)) { if (!f) return;
        auto g = [=](Cx &, long *a) { return f(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], (P)a[9], a[10], (P)a[11], a[12], (P)a[13], a[14], (P)a[15], a[16], (P)a[17], a[18]); };
        B common{{1, junk}, {1, PlasmaNoTrans}, {2, junk}, {2, Tr<T>::cx ? PlasmaTrans : PlasmaLeft}, {3, -1}, {4, -1}, {5, -1}, {6, -1}, {7, -1}, {8, -1}, {9, 0}, {10, 2}, {10, 0}, {11, 0}, {12, 2}, {12, 0}, {13, 0}, {14, 0}, {15, 0}, {16, 1}, {17, 0}, {18, 0}, {18, 1}};
        B l = common, r = common; l.push_back({6, 2}); l.push_back({7, 4}); r.push_back({5, 2}); r.push_back({7, 4});
        args<T>(c, nm, {{0, PlasmaLeft, CTr, 3, 3, 3, 3, 3, 2, a1, 4, a2, 4, v, 4, t, 2, w, 4}}, 18, l, g);
        args<T>(c, nm, {{0, PlasmaRight, CTr, 3, 3, 3, 3, 3, 2, a1, 4, a2, 4, v, 4, t, 2, w, 4}}, 18, r, g); };
    switch (which) {
    case 0: if (KB<T>::geadd) args<T>(c, "geadd", {{0, PlasmaNoTrans, 3, 4, 0, a1, 4, 0, a2, 4}}, 9, B{{1, junk}, {1, 0}, {2, -1}, {3, -1}, {5, 0}, {6, 2}, {6, 0}, {8, 0}, {9, 2}, {9, 0}}, [](Cx &, long *a) { return KB<T>::geadd(a[1], a[2], a[3], sv<T>(2), (P)a[5], a[6], sv<T>(3), (P)a[8], a[9]); });
            if (KB<T>::geadd) args<T>(c, "geadd transposed", {{0, PlasmaTrans, 3, 4, 0, a1, 4, 0, a2, 4}}, 9, B{{6, 3}, {9, 2}}, [](Cx &, long *a) { return KB<T>::geadd(a[1], a[2], a[3], sv<T>(2), (P)a[5], a[6], sv<T>(3), (P)a[8], a[9]); }); break;
    case 1: if (KB<T>::tradd) args<T>(c, "tradd", {{0, PlasmaLower, PlasmaNoTrans, 3, 4, 0, a1, 4, 0, a2, 4}}, 10, B{{1, junk}, {1, PlasmaNoTrans}, {2, junk}, {3, -1}, {4, -1}, {6, 0}, {7, 2}, {9, 0}, {10, 2}}, [](Cx &, long *a) { return KB<T>::tradd(a[1], a[2], a[3], a[4], sv<T>(2), (P)a[6], a[7], sv<T>(3), (P)a[9], a[10]); });
            if (KB<T>::tradd) args<T>(c, "tradd transposed", {{0, PlasmaLower, PlasmaTrans, 3, 4, 0, a1, 4, 0, a2, 4}}, 10, B{{7, 3}, {10, 2}}, [](Cx &, long *a) { return KB<T>::tradd(a[1], a[2], a[3], a[4], sv<T>(2), (P)a[6], a[7], sv<T>(3), (P)a[9], a[10]); }); break;
    case 2: for (bool lq : {false, true}) { auto f = lq ? KB<T>::gelqt : KB<T>::geqrt; if (f) args<T>(c, lq ? "gelqt" : "geqrt", {{0, 3, 3, 2, a1, 4, t, 2, ta, w}}, 9, B{{1, -1}, {2, -1}, {3, -1}, {3, 0}, {4, 0}, {5, 2}, {6, 0}, {7, 1}, {8, 0}, {9, 0}}, [=](Cx &, long *a) { return f(a[1], a[2], a[3], (P)a[4], a[5], (P)a[6], a[7], (P)a[8], (P)a[9]); }); } break;
    case 3: two("tsqrt", KB<T>::tsqrt, false); two("tslqt", KB<T>::tslqt, true); break;
    case 4: two("ttqrt", KB<T>::ttqrt, false); two("ttlqt", KB<T>::ttlqt, true); break;
    case 5: for (bool lq : {false, true}) { auto f = lq ? KB<T>::unmlq : KB<T>::unmqr; if (!f) continue; for (int s : SIDES) { B b{{1, junk}, {1, 0}, {2, junk}, {2, 0}, {3, -1}, {4, -1}, {5, -1}, {5, 4}, {6, -1}, {7, 0}, {8, lq ? 1 : 2}, {9, 0}, {10, 1}, {11, 0}, {12, 2}, {13, 0}, {14, 2}}; if (Tr<T>::cx) b.push_back({2, PlasmaTrans});
            args<T>(c, lq ? "unmlq" : "unmqr", {{0, s, CTr, 3, 3, lq ? 2 : 3, 2, v, 4, t, 2, a1, 4, w, 4}}, 14, b, [=](Cx &, long *a) { return f(a[1], a[2], a[3], a[4], a[5], a[6], (P)a[7], a[8], (P)a[9], a[10], (P)a[11], a[12], (P)a[13], a[14]); }); } } break;
    case 6: app("tsmqr", KB<T>::tsmqr); app("ttmqr", KB<T>::ttmqr); break;
    case 7: app("tsmlq", KB<T>::tsmlq); app("ttmlq", KB<T>::ttmlq); break;
    case 8: if (KB<T>::parfb) for (int s : SIDES) { B b{{1, junk}, {2, junk}, {3, junk}, {4, junk}, {5, -1}, {6, -1}, {7, -1}, {8, -1}, {9, -1}, {10, -1}, {11, 0}, {12, -1}, {13, 0}, {14, -1}, {15, 0}, {16, -1}, {17, 0}, {18, -1}, {19, 0}, {20, -1}}; b.push_back({s == PlasmaLeft ? 8 : 7, 2});
            args<T>(c, "parfb", {{0, s, PlasmaNoTrans, PlasmaForward, PlasmaColumnwise, 3, 3, 3, 3, 2, 0, a1, 4, a2, 4, v, 4, t, 4, w, 4}}, 20, b, [](Cx &, long *a) { return KB<T>::parfb(a[1], a[2], a[3], a[4], a[5], a[6], a[7], a[8], a[9], a[10], (P)a[11], a[12], (P)a[13], a[14], (P)a[15], a[16], (P)a[17], a[18], (P)a[19], a[20]); }); } break;
    case 9: if (KB<T>::pamm) args<T>(c, "pamm", {{0, PlasmaW, PlasmaLeft, PlasmaColumnwise, 2, 3, 3, 0, a1, 4, a2, 4, v, 4, w, 4}}, 15, B{{1, junk}, {2, junk}, {3, junk}, {4, -1}, {5, -1}, {6, -1}, {7, -1}, {8, 0}, {9, -1}, {10, 0}, {11, -1}, {12, 0}, {13, -1}, {14, 0}, {15, -1}}, [](Cx &, long *a) { return KB<T>::pamm(a[1], a[2], a[3], a[4], a[5], a[6], a[7], (P)a[8], a[9], (P)a[10], a[11], (P)a[12], a[13], (P)a[14], a[15]); }); break;
    case 10: if (KB<T>::pemv) args<T>(c, "pemv", {{0, PlasmaTrans, PlasmaColumnwise, 3, 2, 2, 0, a1, 4, a2, 1, 0, w, 1, t}}, 14, B{{1, junk}, {2, junk}, {3, -1}, {4, -1}, {5, 3}, {8, 2}, {10, 0}, {13, 0}}, [](Cx &, long *a) { return KB<T>::pemv(a[1], a[2], a[3], a[4], a[5], sv<T>(2), (P)a[7], a[8], (P)a[9], a[10], sv<T>(0), (P)a[12], a[13], (P)a[14]); }); break;
    }
}
template<class T> void en(Sink &S) {
    char p = Tr<T>::p; Env e; e.raw = true; bool q = !S.tier; bool cx = Tr<T>::cx;
    bool first = std::is_same_v<T, d_t> || std::is_same_v<T, z_t>;
    std::vector<int> sz = q ? std::vector<int>{0, 1, 2, 3, 5} : std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7}, ibs = q ? std::vector<int>{1, 2, 3} : std::vector<int>{1, 2, 3, 4, 5, 8}; if (q && !first) sz = {1, 2, 4};
    int CTr = CT<T>();
    for (int w = 0; w <= 10; w++) ADD(S, e, ([=](Cx &c) { arg_cases<T>(c, w); }), "%ccore-args %d", p, w);
    ADD(S, e, ([=](Cx &c) { cabs1<T>(c); }), "%ccore-cabs1", p);
    for (int m : sz) for (int n : sz) for (int pad : {0, 2}) {
        for (int uplo : {PlasmaGeneral, PlasmaUpper, PlasmaLower}) {
            for (int t : transes<T>()) {
                for (Z a : SC) for (Z b : SC) ADD(S, e, ([=](Cx &c) { geadd<T>(c, uplo, t, m, n, a, b, pad); }), "%ccore-add %c%c m%d n%d a%g b%g p%d", p, uc(uplo), tc(t), m, n, a.real(), b.real(), pad);
                ADD(S, e, ([=](Cx &c) { lacpy<T>(c, uplo, t, m, n, pad); }), "%ccore-lacpy %c%c m%d n%d p%d", p, uc(uplo), tc(t), m, n, pad);
            }
            for (double f : {1.0, -2.0, 1e3}) for (double t : {0.0, 3.0, -1e3}) ADD(S, e, ([=](Cx &c) { lascl<T>(c, uplo, f, t, m, n, pad); }), "%ccore-lascl %c m%d n%d %g/%g p%d", p, uc(uplo), m, n, t, f, pad);
            for (Z a : SC) for (Z b : SC) ADD(S, e, ([=](Cx &c) { laset<T>(c, uplo, a, b, m, n, pad); }), "%ccore-laset %c m%d n%d a%g b%g p%d", p, uc(uplo), m, n, a.real(), b.real(), pad);
        }
        for (int ta : transes<T>()) for (int tb : transes<T>()) for (int k : {0, 1, 3}) for (Z a : {SC[0], SC[2]}) for (Z b : SC) ADD(S, e, ([=](Cx &c) { gemm<T>(c, ta, tb, m, n, k, a, b, pad); }), "%ccore-gemm %c%c m%d n%d k%d a%g b%g p%d", p, tc(ta), tc(tb), m, n, k, a.real(), b.real(), pad);
        for (int he = 0; he <= (int)cx; he++) for (int s : SIDES) for (int u : UPLOS) for (Z b : SC) ADD(S, e, ([=](Cx &c) { symm<T>(c, he, s, u, m, n, SC[2], b, pad); }), "%ccore-%smm %c%c m%d n%d b%g p%d", p, he ? "he" : "sy", sc(s), uc(u), m, n, b.real(), pad);
        for (int he = 0; he <= (int)cx; he++) for (int two = 0; two < 2; two++) for (int u : UPLOS) for (int t : {(int)PlasmaNoTrans, (int)(he ? PlasmaConjTrans : PlasmaTrans)}) for (Z b : SC) ADD(S, e, ([=](Cx &c) { rk<T>(c, he, two, u, t, n, m, SC[2], b, pad); }), "%ccore-%s%s %c%c n%d k%d b%g p%d", p, he ? "her" : "syr", two ? "2k" : "k", uc(u), tc(t), n, m, b.real(), pad);
        for (int so = 0; so < 2; so++) for (int s : SIDES) for (int u : UPLOS) for (int t : transes<T>()) for (int d : DIAGS) for (Z a : {SC[1], SC[2]}) ADD(S, e, ([=](Cx &c) { trm<T>(c, so, s, u, t, d, m, n, a, pad); }), "%ccore-%s %c%c%c%c m%d n%d a%g p%d", p, so ? "trsm" : "trmm", sc(s), uc(u), tc(t), d == PlasmaUnit ? 'U' : 'N', m, n, a.real(), pad);
        for (int nt = 0; nt < 4; nt++) {
            ADD(S, e, ([=](Cx &c) { norm<T>(c, GE, NT[nt], 0, 0, m, n, pad); }), "%ccore-lange %d m%d n%d p%d", p, nt, m, n, pad);
            for (int u : UPLOS) { for (int d : DIAGS) ADD(S, e, ([=](Cx &c) { norm<T>(c, TR, NT[nt], u, d, m, n, pad); }), "%ccore-lantr %d%c%c m%d n%d p%d", p, nt, uc(u), d == PlasmaUnit ? 'U' : 'N', m, n, pad);
                if (m == n) for (int he = 0; he <= (int)cx; he++) ADD(S, e, ([=](Cx &c) { norm<T>(c, he ? HE : SY, NT[nt], u, 0, n, n, pad); }), "%ccore-lan%s %d%c n%d p%d", p, he ? "he" : "sy", nt, uc(u), n, pad); }
        }
        if (m && n) {
            for (int nt : {PlasmaOneNorm, PlasmaInfNorm}) {
                ADD(S, e, ([=](Cx &c) { norm_aux<T>(c, GE, nt, 0, 0, m, n, pad); }), "%ccore-lange-aux %d m%d n%d p%d", p, nt, m, n, pad);
                for (int u : UPLOS) { for (int d : DIAGS) ADD(S, e, ([=](Cx &c) { norm_aux<T>(c, TR, nt, u, d, m, n, pad); }), "%ccore-lantr-aux %d%c%c m%d n%d p%d", p, nt, uc(u), d == PlasmaUnit ? 'U' : 'N', m, n, pad);
                    if (m == n) for (int he = 0; he <= (int)cx; he++) ADD(S, e, ([=](Cx &c) { norm_aux<T>(c, he ? HE : SY, nt, u, 0, n, n, pad); }), "%ccore-lan%s-aux %d%c n%d p%d", p, he ? "he" : "sy", nt, uc(u), n, pad); }
            }
            for (int nt : {PlasmaColumnwise, PlasmaRowwise}) ADD(S, e, ([=](Cx &c) { norm_aux<T>(c, GE, nt, 0, 0, m, n, pad); }), "%ccore-amax %d m%d n%d p%d", p, nt, m, n, pad);
        }
        ADD(S, e, ([=](Cx &c) { ssq<T>(c, GE, 0, 0, m, n, pad); }), "%ccore-gessq m%d n%d p%d", p, m, n, pad);
        for (int u : UPLOS) { if (m && n) for (int d : DIAGS) ADD(S, e, ([=](Cx &c) { ssq<T>(c, TR, u, d, m, n, pad); }), "%ccore-trssq %c%c m%d n%d p%d", p, uc(u), d == PlasmaUnit ? 'U' : 'N', m, n, pad);
            if (m == n) for (int he = 0; he <= (int)cx; he++) ADD(S, e, ([=](Cx &c) { ssq<T>(c, he ? HE : SY, u, 0, n, n, pad); }), "%ccore-%sssq %c n%d p%d", p, he ? "he" : "sy", uc(u), n, pad); }
        if (m == n) for (int u : UPLOS) {
            for (int bad = -1; bad < n; bad++) ADD(S, e, ([=](Cx &c) { potrf<T>(c, u, n, bad, pad); }), "%ccore-potrf %c n%d bad%d p%d", p, uc(u), n, bad, pad);
            ADD(S, e, ([=](Cx &c) { lauum<T>(c, u, n, pad); }), "%ccore-lauum %c n%d p%d", p, uc(u), n, pad);
            for (int d : DIAGS) for (int bad = -1; bad < (d == PlasmaUnit ? 0 : n); bad++) ADD(S, e, ([=](Cx &c) { trtri<T>(c, u, d, n, bad, pad); }), "%ccore-trtri %c%c n%d bad%d p%d", p, uc(u), d == PlasmaUnit ? 'U' : 'N', n, bad, pad);
            for (int it = 1; it <= 3; it++) ADD(S, e, ([=](Cx &c) { hegst<T>(c, it, u, n, pad); }), "%ccore-hegst %d%c n%d p%d", p, it, uc(u), n, pad);
        }
        // Householder
        for (int ib : ibs) for (int lq = 0; lq < 2; lq++) {
            for (int k = 0; k <= 5; k++) ADD(S, e, ([=](Cx &c) { qrt<T>(c, lq, m, n, ib, k, pad); }), "%ccore-%s m%d n%d ib%d k%d p%d", p, lq ? "gelqt" : "geqrt", m, n, ib, k, pad);
            for (int tt = 0; tt < 2; tt++) for (int k : {0, 1, 2, 3, 4, 5, 11, 12, 14, 15}) ADD(S, e, ([=](Cx &c) { tsqrt<T>(c, lq, tt, m, n, ib, k, pad); }), "%ccore-%s%s m%d n%d ib%d k%d p%d", p, tt ? "tt" : "ts", lq ? "lqt" : "qrt", m, n, ib, k, pad);
            for (int s : SIDES) for (int t : {(int)PlasmaNoTrans, CTr}) {
                int o = s == PlasmaLeft ? m : n, x = s == PlasmaLeft ? n : m;
                if (ib == 1) for (int k : {0, 1, 2}) if (k <= o) ADD(S, e, ([=](Cx &c) { unm<T>(c, lq, s, t, m, n, k, 0, pad); }), "%ccore-%s %c%c m%d n%d k%d ib0 p%d", p, lq ? "unmlq" : "unmqr", sc(s), tc(t), m, n, k, pad);
                for (int k : {0, 1, 2, 3, 5}) if (k <= o) ADD(S, e, ([=](Cx &c) { unm<T>(c, lq, s, t, m, n, k, ib, pad); }), "%ccore-%s %c%c m%d n%d k%d ib%d p%d", p, lq ? "unmlq" : "unmqr", sc(s), tc(t), m, n, k, ib, pad);
                if (pad && q && !first) continue;
                for (int o2 : sz) for (int k : {1, 2, 3, 5}) if (k <= o) for (int tt = 0; tt < 2; tt++) {
                    int m1 = s == PlasmaLeft ? o : x, n1 = s == PlasmaLeft ? x : o, m2 = s == PlasmaLeft ? o2 : x, n2 = s == PlasmaLeft ? x : o2;
                    ADD(S, e, ([=](Cx &c) { tsm<T>(c, lq, tt, s, t, m1, n1, m2, n2, k, ib, pad); }), "%ccore-%sm%s %c%c m%d n%d m%d n%d k%d ib%d p%d", p, tt ? "tt" : "ts", lq ? "lq" : "qr", sc(s), tc(t), m1, n1, m2, n2, k, ib, pad);
                }
            }
        }
        if (m && n) for (int s : SIDES) for (int t : {(int)PlasmaNoTrans, CTr}) for (int k : {1, 2, 3}) if (k <= (s == PlasmaLeft ? m : n)) {
            ADD(S, e, ([=](Cx &c) { larfb<T>(c, s, cx ? t : t == PlasmaNoTrans ? t : (int)PlasmaConjTrans, m, n, k, pad); }), "%ccore-larfb %c%c m%d n%d k%d p%d", p, sc(s), tc(t), m, n, k, pad);
            for (int sto : {PlasmaColumnwise, PlasmaRowwise}) for (int o2 : {1, 2, 3, 4}) for (int l = 0; l <= std::min(k, o2); l++) { int m2 = s == PlasmaLeft ? o2 : m, n2 = s == PlasmaLeft ? n : o2;
                ADD(S, e, ([=](Cx &c) { parfb<T>(c, s, t, sto, m, n, m2, n2, k, l, pad); }), "%ccore-parfb %c%c%c m%d n%d m%d n%d k%d l%d p%d", p, sc(s), tc(t), sto == PlasmaColumnwise ? 'C' : 'R', m, n, m2, n2, k, l, pad); }
        }
        if (m && n) for (int l = 0; l <= std::min(m, n); l++) for (Z a : SC) for (Z b : SC) for (int inc : {1, 2}) {
            for (int t : transes<T>()) ADD(S, e, ([=](Cx &c) { pemv<T>(c, t, t == PlasmaNoTrans ? PlasmaRowwise : PlasmaColumnwise, m, n, l, a, b, inc, pad); }), "%ccore-pemv %c m%d n%d l%d a%g b%g i%d p%d", p, tc(t), m, n, l, a.real(), b.real(), inc, pad);
        }
        if constexpr (std::is_same_v<T, d_t>) { ADD(S, e, ([=](Cx &c) { lag2<d_t, s_t>(c, plasma_core_dlag2s, m, n, pad); }), "dcore-lag2s m%d n%d p%d", m, n, pad); ADD(S, e, ([=](Cx &c) { lag2<s_t, d_t>(c, plasma_core_slag2d, m, n, pad); }), "score-lag2d m%d n%d p%d", m, n, pad); }
        if constexpr (std::is_same_v<T, z_t>) { ADD(S, e, ([=](Cx &c) { lag2<z_t, c_t>(c, plasma_core_zlag2c, m, n, pad); }), "zcore-lag2c m%d n%d p%d", m, n, pad); ADD(S, e, ([=](Cx &c) { lag2<c_t, z_t>(c, plasma_core_clag2z, m, n, pad); }), "ccore-lag2z m%d n%d p%d", m, n, pad); }
    }
    for (int n = 0; n <= (q ? 4 : 6); n++) { int cnt = 1; for (int i = 0; i < n; i++) cnt *= 3; for (int code = 0; code < cnt; code++) ADD(S, e, ([=](Cx &c) { ssq_aux<T>(c, false, n, n, code); }), "%ccore-gessq-aux n%d %d", p, n, code); }
    for (int n = 0; n <= 3; n++) for (int m : {n, n + 1}) { if (!m) continue; int cnt = 1; for (int i = 0; i < n * (n + 1) / 2; i++) cnt *= 3; for (int code = 0; code < cnt; code += n == 3 && q && !first ? 5 : 1) ADD(S, e, ([=](Cx &c) { ssq_aux<T>(c, true, m, n, code); }), "%ccore-syssq-aux m%d n%d %d", p, m, n, code); }
    Env r; r.nb = 2;
    for (int cr : {PlasmaRowwise, PlasmaColumnwise}) for (int len = 1; len <= (q ? 3 : 4); len++) for (int oth : {1, 2, 3}) for (int nb : {1, 2, 3}) for (int k1 = 1; k1 <= len; k1++) for (int k2 = k1; k2 <= len; k2++) for (int inc : {1, -1}) {
        int cnt = 1; for (int i = 0; i < len; i++) cnt *= len;
        for (int code = 0; code < cnt; code++) ADD(S, r, ([=](Cx &c) { geswp<T>(c, cr, cr == PlasmaRowwise ? len : oth, cr == PlasmaRowwise ? oth : len, nb, k1, k2, inc, code); }), "%ccore-geswp %c len%d x%d nb%d %d..%d inc%d %d", p, cr == PlasmaRowwise ? 'R' : 'C', len, oth, nb, k1, k2, inc, code);
    }
}
}
void enum_core(Sink &S) { en<d_t>(S); en<z_t>(S); en<s_t>(S); en<c_t>(S); }
