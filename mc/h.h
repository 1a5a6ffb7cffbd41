// Harness core: case catalogue, monitored user arrays, reference arithmetic, API binding.
#pragma once
#include "mc.h"
#include <complex>
#include <cmath>
#include <cstdarg>
#include <type_traits>
#include <algorithm>
#ifndef I_
#define I_ _Complex_I
#endif
extern "C" {
#include "plasma_types.h"
#include "plasma_error.h"
}

typedef std::complex<double> Z;
typedef float  s_t; typedef double d_t; typedef std::complex<float> c_t; typedef std::complex<double> z_t;

template<class T> struct Tr;
template<> struct Tr<s_t> { typedef float  R; static const bool cx = false; static const char p = 's'; static const int ty = PlasmaRealFloat;    static double tol() { return 3e-4; } static double eps() { return 6e-8; } };
template<> struct Tr<d_t> { typedef double R; static const bool cx = false; static const char p = 'd'; static const int ty = PlasmaRealDouble;   static double tol() { return 1e-11; } static double eps() { return 1.2e-16; } };
template<> struct Tr<c_t> { typedef float  R; static const bool cx = true;  static const char p = 'c'; static const int ty = PlasmaComplexFloat; static double tol() { return 3e-4; } static double eps() { return 6e-8; } };
template<> struct Tr<z_t> { typedef double R; static const bool cx = true;  static const char p = 'z'; static const int ty = PlasmaComplexDouble;static double tol() { return 1e-11; } static double eps() { return 1.2e-16; } };
template<class T> T mk(Z v) { if constexpr (Tr<T>::cx) return T((typename Tr<T>::R)v.real(), (typename Tr<T>::R)v.imag()); else return (T)v.real(); }
template<class T> Z up(T v) { if constexpr (Tr<T>::cx) return Z(v.real(), v.imag()); else return Z((double)v, 0); }
template<class T> int CT() { return Tr<T>::cx ? PlasmaConjTrans : PlasmaTrans; }

// ---- dense reference matrices
struct Mat {
    int m, n; std::vector<Z> a;
    Mat(int m_ = 0, int n_ = 0) : m(m_), n(n_), a((size_t)m_ * n_) {}
    Z &operator()(int i, int j) { return a[(size_t)j * m + i]; }
    const Z &operator()(int i, int j) const { return a[(size_t)j * m + i]; }
    double maxabs() const { double r = 0; for (auto &x : a) { double v = std::abs(x); if (!(v <= r)) r = v; } return r; }
};
Mat operator*(const Mat &a, const Mat &b);
Mat operator+(const Mat &a, const Mat &b);
Mat operator-(const Mat &a, const Mat &b);
Mat scale(Z s, const Mat &a);
Mat tr(const Mat &a); Mat ct(const Mat &a); Mat cj(const Mat &a);
Mat op(const Mat &a, int trans);
Mat eye(int m, int n);
Mat sub(const Mat &a, int i, int j, int m, int n);
Mat trian(const Mat &a, int uplo, bool unit);           // triangle with explicit zeros
Mat herm(const Mat &a, int uplo, bool conj);            // full from one triangle (conj: hermitian)
Mat gs_inverse(const Mat &a, bool *ok = nullptr);       // Gauss-Jordan with pivoting
void jacobi_svd(const Mat &a, std::vector<double> &s);  // singular values, descending

enum Cat { NUM = 1, RC = 2, IN = 4, LEAK = 8, OTHER = 16 };

struct Env { int nb = 4, ib = 2, npt = 1, hh = PlasmaFlatHouseholder; bool raw = false; bool huge = false; /* leading dimensions beyond 2^30 */ int tune = 0; /* 1: tuned, with the wrong tile size set; 2: and the wrong inner block size */ };

struct Buf { std::string name; char *p; size_t esz; int m, n, ld; bool out; std::vector<char> orig; bool huge = false; size_t old() const { return huge ? m : ld; } /* stride of orig */ };
char *huge_region(int k, int cols, size_t colbytes, size_t stride);   // inaccessible memory but for the columns; null: none
struct Bad { int cat; std::string what; };

template<class T> struct Arr {
    T *p; int m, n, ld;
    T &operator()(int i, int j) { return p[(size_t)j * ld + i]; }
    Z at(int i, int j) const { return up<T>(p[(size_t)j * ld + i]); }
    void set(int i, int j, Z v) { p[(size_t)j * ld + i] = mk<T>(v); }
    Mat get() const { Mat r(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) r(i, j) = at(i, j); return r; }
    void put(const Mat &a) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) set(i, j, a(i, j)); }
};

enum Mode { M_NORMAL = 0, M_FAULT = 1 };

u64 base_seed();
struct Cx {
    Env env; int mode = M_NORMAL;
    std::vector<Buf> bufs;
    std::vector<Bad> bad;
    std::vector<std::pair<std::string, std::string>> outs;   // captured outputs
    u64 seed = base_seed(); int rc = 0; int ncalls = 0; bool oom = false;
    int only_call = -1;
    double tolscale = 1;
    void *extra = nullptr;
    // --- arrays
    int nhuge = 0;
    template<class T> Arr<T> arr(const char *name, int m, int n, int ld, bool out) {
        if (env.huge && ld > m && m > 0 && n > 1) {
            int ld2 = (1 << 30) + 4 * (ld - m);
            T *p = (T *)huge_region(nhuge++, n, (size_t)m * sizeof(T), (size_t)ld2 * sizeof(T));
            if (p) { bufs.push_back({name, (char *)p, sizeof(T), m, n, ld2, out, {}, true}); return Arr<T>{p, m, n, ld2}; }
        }
        size_t cnt = (size_t)ld * (n > 0 ? n : 1);
        T *p = (T *)mc::ualloc(cnt * sizeof(T), name);
        for (int j = 0; j < n; j++) if (ld > m) mc::uprotect(p + (size_t)j * ld + m, (size_t)(ld - m) * sizeof(T), 1);
        if (n <= 0 || m <= 0) mc::uprotect(p, cnt * sizeof(T), 1);
        bufs.push_back({name, (char *)p, sizeof(T), m, n, ld, out, {}});
        return Arr<T>{p, m, n, ld};
    }
    template<class T> Arr<T> in(const char *name, int m, int n, int pad = 0) { return arr<T>(name, m, n, std::max(1, m) + pad, false); }
    template<class T> Arr<T> out(const char *name, int m, int n, int pad = 0) { return arr<T>(name, m, n, std::max(1, m) + pad, true); }
    Arr<int> ints(const char *name, int n, bool out_) { return arr_i(name, n, out_); }
    Arr<int> arr_i(const char *name, int n, bool out_);
    // --- data
    u64 rnd(); double urand();                    // uniform in [-1,1)
    int irand(int lo, int hi);
    template<class T> Z ival(int r = 3) { double a = irand(-r, r), b = Tr<T>::cx ? irand(-r, r) : 0; return Z(a, b); }
    template<class T> Z uval() { double a = urand(), b = Tr<T>::cx ? urand() : 0; return up<T>(mk<T>(Z(a, b))); }
    template<class T> void fill_int(Arr<T> A, int r = 3) { for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, ival<T>(r)); }
    template<class T> void fill_uni(Arr<T> A) { for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, uval<T>()); }
    template<class T> void fill_nan(Arr<T> A) { double q = NAN; for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, Z(q, Tr<T>::cx ? q : 0)); }
    // --- running
    void start();                                 // plasma_init + settings
    int call(const std::function<int()> &f, const char *what);   // one library call with before/after checks
    double dcall(const std::function<double()> &f, const char *what);
    bool want(int got, int expect, const char *what);   // return code check; false: stop the body
    bool ok(const char *what = "call") { return want(rc, 0, what); }
    void finish();
    void badf(int cat, const char *f, ...);
    void outv(const std::string &name, const void *p, size_t n) { outs.push_back({name, std::string((const char *)p, n)}); }
    // --- comparisons
    bool near_(const char *name, const Mat &got, const Mat &ref, double tol, double scl = 0);
    template<class T> bool cmp(const char *name, Arr<T> A, const Mat &ref, double f = 1, double scl = 0) { return near_(name, A.get(), ref, Tr<T>::tol() * f * tolscale, scl); }
    // parts of an in/out array that must not have changed: i,j predicate
    template<class T, class F> bool same(const char *name, Arr<T> A, F pred) {
        for (auto &b : bufs) if (b.p == (char *)A.p) for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) if (pred(i, j)) {
            size_t o = ((size_t)j * A.ld + i) * sizeof(T), q = ((size_t)j * b.old() + i) * sizeof(T);
            if (memcmp(b.p + o, b.orig.data() + q, sizeof(T))) {
                T x; memcpy(&x, b.orig.data() + q, sizeof(T));
                Z g = A.at(i, j), w = up<T>(x);
                if (std::isnan(g.real()) && std::isnan(w.real())) continue;   // NaN payload
                badf(IN, "%s(%d,%d) changed though it is not part of the output", name, i, j); return false; } }
        return true;
    }
    void save(); void check_inputs(const char *what);
    void capture(const char *what);
};

struct Case { std::string key; Env env; std::function<void(Cx &)> body; };
// grid: how far the enumeration goes
enum Grid { G_NUM = 0, G_SCHED = 1, G_MEM = 2, G_FAULT = 3, G_TUNE = 4, G_HIST = 5, G_DEEP = 6, G_BIG = 7 /* tiles of the size users set, default parameters among them */ };
static inline int big_ib(int nb) { return nb == 256 ? 64 : nb == 100 ? 40 : 8; }
struct Sink {
    Grid grid; int tier;                          // tier 0 quick, 1 thorough
    std::function<void(Case &&)> put;
    std::function<bool()> mine;                   // advance the case counter; true: this worker takes it
    std::string fam;
    void add(const Env &e, const std::function<void(Cx &)> &b, const char *f, ...);
};
#define ADD(S, env, body, ...) do { if ((S).mine()) (S).add(env, body, __VA_ARGS__); } while (0)

void enum_blas(Sink &); void enum_util(Sink &); void enum_chol(Sink &); void enum_lu(Sink &); void enum_qr(Sink &);
void enum_aasen(Sink &); void enum_svd(Sink &); void enum_norm(Sink &); void enum_mixed(Sink &);
void enum_sing(Sink &); void enum_nan(Sink &); void enum_args(Sink &);

// rows of the LAPACK-style band array that the general band routines work on
static inline int band_rows(int kl, int ku, int nb) { return ((kl + ku + nb - 1) / nb + (kl + nb - 1) / nb + 1) * nb; }
// ---- API binding (complex passed as std::complex, which has the same calling convention)
typedef struct { int type, uplo, precision; } desc_head;
extern "C" {
#define PLASMA_DESC_ONLY
#include "plasma_descriptor.h"
#include "plasma_async.h"
int plasma_init(); int plasma_finalize(); int plasma_set(plasma_enum_t, int); int plasma_get(plasma_enum_t, int *);
}
#define DECL_COMMON(p, T, R, UN, HE) extern "C" { \
int plasma_##p##gemm(int,int,int,int,int,T,T*,int,T*,int,T,T*,int); \
int plasma_##p##symm(int,int,int,int,T,T*,int,T*,int,T,T*,int); \
int plasma_##p##syrk(int,int,int,int,T,T*,int,T,T*,int); \
int plasma_##p##syr2k(int,int,int,int,T,T*,int,T*,int,T,T*,int); \
int plasma_##p##trmm(int,int,int,int,int,int,T,T*,int,T*,int); \
int plasma_##p##trsm(int,int,int,int,int,int,T,T*,int,T*,int); \
int plasma_##p##gbmm(int,int,int,int,int,int,int,T,T*,int,T*,int,T,T*,int); \
int plasma_##p##lacpy(int,int,int,int,T*,int,T*,int); \
int plasma_##p##laset(int,int,int,T,T,T*,int); void plasma_##p##gbset(int,int,int,int,T*,int); \
int plasma_##p##lascl(int,R,R,int,int,T*,int); \
int plasma_##p##geadd(int,int,int,T,T*,int,T,T*,int); \
int plasma_##p##tradd(int,int,int,int,T,T*,int,T,T*,int); \
int plasma_##p##geswp(int,int,int,T*,int,int*,int); \
int plasma_##p##potrf(int,int,T*,int); int plasma_##p##potrs(int,int,int,T*,int,T*,int); int plasma_##p##posv(int,int,int,T*,int,T*,int); \
int plasma_##p##potri(int,int,T*,int); int plasma_##p##poinv(int,int,T*,int); int plasma_##p##lauum(int,int,T*,int); int plasma_##p##trtri(int,int,int,T*,int); \
int plasma_##p##pbtrf(int,int,int,T*,int); int plasma_##p##pbtrs(int,int,int,int,T*,int,T*,int); int plasma_##p##pbsv(int,int,int,int,T*,int,T*,int); \
int plasma_##p##getrf(int,int,T*,int,int*); int plasma_##p##getrs(int,int,int,T*,int,int*,T*,int); int plasma_##p##gesv(int,int,T*,int,int*,T*,int); \
int plasma_##p##getri(int,T*,int,int*); int plasma_##p##getri_aux(int,T*,int); int plasma_##p##geinv(int,int,T*,int,int*); \
int plasma_##p##gbtrf(int,int,int,int,T*,int,int*); int plasma_##p##gbtrs(int,int,int,int,int,T*,int,int*,T*,int); int plasma_##p##gbsv(int,int,int,int,T*,int,int*,T*,int); \
int plasma_##p##geqrf(int,int,T*,int,plasma_desc_t*); int plasma_##p##gelqf(int,int,T*,int,plasma_desc_t*); \
int plasma_##p##UN##gqr(int,int,int,T*,int,plasma_desc_t,T*,int); int plasma_##p##UN##glq(int,int,int,T*,int,plasma_desc_t,T*,int); \
int plasma_##p##UN##mqr(int,int,int,int,int,T*,int,plasma_desc_t,T*,int); int plasma_##p##UN##mlq(int,int,int,int,int,T*,int,plasma_desc_t,T*,int); \
int plasma_##p##geqrs(int,int,int,T*,int,plasma_desc_t,T*,int); int plasma_##p##gelqs(int,int,int,T*,int,plasma_desc_t,T*,int); int plasma_##p##gels(int,int,int,int,T*,int,plasma_desc_t*,T*,int); \
int plasma_##p##HE##trf(int,int,T*,int,int*,T*,int,int*); int plasma_##p##HE##trs(int,int,int,T*,int,int*,T*,int,int*,T*,int); int plasma_##p##HE##sv(int,int,int,T*,int,int*,T*,int,int*,T*,int); \
int plasma_##p##gesdd(int,int,int,int,T*,int,plasma_desc_t*,R*,T*,int,T*,int); \
R plasma_##p##lange(int,int,int,T*,int); R plasma_##p##lansy(int,int,int,T*,int); R plasma_##p##lantr(int,int,int,int,int,T*,int); R plasma_##p##langb(int,int,int,int,int,T*,int); \
}
DECL_COMMON(s, s_t, float, or, sy) DECL_COMMON(d, d_t, double, or, sy) DECL_COMMON(c, c_t, float, un, he) DECL_COMMON(z, z_t, double, un, he)
extern "C" {
int plasma_samax(int,int,int,s_t*,int,float*); int plasma_damax(int,int,int,d_t*,int,double*); int plasma_scamax(int,int,int,c_t*,int,float*); int plasma_dzamax(int,int,int,z_t*,int,double*);
int plasma_chemm(int,int,int,int,c_t,c_t*,int,c_t*,int,c_t,c_t*,int); int plasma_zhemm(int,int,int,int,z_t,z_t*,int,z_t*,int,z_t,z_t*,int);
int plasma_cherk(int,int,int,int,float,c_t*,int,float,c_t*,int); int plasma_zherk(int,int,int,int,double,z_t*,int,double,z_t*,int);
int plasma_cher2k(int,int,int,int,c_t,c_t*,int,c_t*,int,float,c_t*,int); int plasma_zher2k(int,int,int,int,z_t,z_t*,int,z_t*,int,double,z_t*,int);
float plasma_clanhe(int,int,int,c_t*,int); double plasma_zlanhe(int,int,int,z_t*,int);
int plasma_sstevx2(int,int,int,int,float*,float*,float,float,int,int,int*,float*,int*,float*); int plasma_dstevx2(int,int,int,int,double*,double*,double,double,int,int,int*,double*,int*,double*);
int plasma_dsgesv(int,int,d_t*,int,int*,d_t*,int,d_t*,int,int*); int plasma_zcgesv(int,int,z_t*,int,int*,z_t*,int,z_t*,int,int*);
int plasma_dsposv(int,int,int,d_t*,int,d_t*,int,d_t*,int,int*); int plasma_zcposv(int,int,int,z_t*,int,z_t*,int,z_t*,int,int*);
int plasma_dsgbsv(int,int,int,int,d_t*,int,int*,d_t*,int,d_t*,int,int*); int plasma_zcgbsv(int,int,int,int,z_t*,int,int*,z_t*,int,z_t*,int,int*);
int plasma_dlag2s(int,int,d_t*,int,s_t*,int); int plasma_zlag2c(int,int,z_t*,int,c_t*,int);
int plasma_slag2d(int,int,s_t*,int,d_t*,int); int plasma_clag2z(int,int,c_t*,int,z_t*,int);
}
template<class T> struct API;
#define API_COMMON(p, T, UN, HE, AM) template<> struct API<T> { \
static constexpr auto gemm = plasma_##p##gemm; static constexpr auto symm = plasma_##p##symm; static constexpr auto syrk = plasma_##p##syrk; static constexpr auto syr2k = plasma_##p##syr2k; \
static constexpr auto trmm = plasma_##p##trmm; static constexpr auto trsm = plasma_##p##trsm; static constexpr auto gbmm = plasma_##p##gbmm; \
static constexpr auto lacpy = plasma_##p##lacpy; static constexpr auto laset = plasma_##p##laset; static constexpr auto gbset = plasma_##p##gbset; static constexpr auto lascl = plasma_##p##lascl; static constexpr auto geadd = plasma_##p##geadd; static constexpr auto tradd = plasma_##p##tradd; static constexpr auto geswp = plasma_##p##geswp; \
static constexpr auto potrf = plasma_##p##potrf; static constexpr auto potrs = plasma_##p##potrs; static constexpr auto posv = plasma_##p##posv; static constexpr auto potri = plasma_##p##potri; static constexpr auto poinv = plasma_##p##poinv; static constexpr auto lauum = plasma_##p##lauum; static constexpr auto trtri = plasma_##p##trtri; \
static constexpr auto pbtrf = plasma_##p##pbtrf; static constexpr auto pbtrs = plasma_##p##pbtrs; static constexpr auto pbsv = plasma_##p##pbsv; \
static constexpr auto getrf = plasma_##p##getrf; static constexpr auto getrs = plasma_##p##getrs; static constexpr auto gesv = plasma_##p##gesv; static constexpr auto getri = plasma_##p##getri; static constexpr auto getri_aux = plasma_##p##getri_aux; static constexpr auto geinv = plasma_##p##geinv; \
static constexpr auto gbtrf = plasma_##p##gbtrf; static constexpr auto gbtrs = plasma_##p##gbtrs; static constexpr auto gbsv = plasma_##p##gbsv; \
static constexpr auto geqrf = plasma_##p##geqrf; static constexpr auto gelqf = plasma_##p##gelqf; static constexpr auto ungqr = plasma_##p##UN##gqr; static constexpr auto unglq = plasma_##p##UN##glq; static constexpr auto unmqr = plasma_##p##UN##mqr; static constexpr auto unmlq = plasma_##p##UN##mlq; \
static constexpr auto geqrs = plasma_##p##geqrs; static constexpr auto gelqs = plasma_##p##gelqs; static constexpr auto gels = plasma_##p##gels; \
static constexpr auto hetrf = plasma_##p##HE##trf; static constexpr auto hetrs = plasma_##p##HE##trs; static constexpr auto hesv = plasma_##p##HE##sv; static constexpr auto gesdd = plasma_##p##gesdd; \
static constexpr auto lange = plasma_##p##lange; static constexpr auto lansy = plasma_##p##lansy; static constexpr auto lantr = plasma_##p##lantr; static constexpr auto langb = plasma_##p##langb; static constexpr auto amax = plasma_##AM; \
};
API_COMMON(s, s_t, or, sy, samax) API_COMMON(d, d_t, or, sy, damax) API_COMMON(c, c_t, un, he, scamax) API_COMMON(z, z_t, un, he, dzamax)
template<class T> struct APIH {};
template<> struct APIH<c_t> { static constexpr auto hemm = plasma_chemm; static constexpr auto herk = plasma_cherk; static constexpr auto her2k = plasma_cher2k; static constexpr auto lanhe = plasma_clanhe; };
template<> struct APIH<z_t> { static constexpr auto hemm = plasma_zhemm; static constexpr auto herk = plasma_zherk; static constexpr auto her2k = plasma_zher2k; static constexpr auto lanhe = plasma_zlanhe; };

static inline char tc(int t) { return t == PlasmaNoTrans ? 'N' : t == PlasmaTrans ? 'T' : 'C'; }
static inline char uc(int u) { return u == PlasmaUpper ? 'U' : u == PlasmaLower ? 'L' : 'G'; }
static inline char sc(int s) { return s == PlasmaLeft ? 'L' : 'R'; }
template<class T> std::vector<int> transes() { return Tr<T>::cx ? std::vector<int>{PlasmaNoTrans, PlasmaTrans, PlasmaConjTrans} : std::vector<int>{PlasmaNoTrans, PlasmaTrans}; }
static const int UPLOS[2] = {PlasmaUpper, PlasmaLower};
static const int SIDES[2] = {PlasmaLeft, PlasmaRight};
static const int DIAGS[2] = {PlasmaNonUnit, PlasmaUnit};
