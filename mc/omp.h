// The asynchronous interface: bindings, and a pool of operands that chained calls share.
#pragma once
#include "ck.h"
extern "C" {
#include "plasma_workspace.h"
void mc_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int mc_omp_get_thread_num();
}
#define SQ plasma_sequence_t *, plasma_request_t *
#define D_ plasma_desc_t
#define DECL_OMP(p, T, R, UN, HE, AM) extern "C" { \
void plasma_omp_##p##gemm(int,int,T,D_,D_,T,D_,SQ); void plasma_omp_##p##symm(int,int,T,D_,D_,T,D_,SQ); void plasma_omp_##p##syrk(int,int,T,D_,T,D_,SQ); void plasma_omp_##p##syr2k(int,int,T,D_,D_,T,D_,SQ); \
void plasma_omp_##p##trmm(int,int,int,int,T,D_,D_,SQ); void plasma_omp_##p##trsm(int,int,int,int,T,D_,D_,SQ); void plasma_omp_##p##gbmm(int,int,T,D_,D_,T,D_,SQ); \
void plasma_omp_##p##geadd(int,T,D_,T,D_,SQ); void plasma_omp_##p##tradd(int,int,T,D_,T,D_,SQ); void plasma_omp_##p##lacpy(int,int,D_,D_,SQ); void plasma_omp_##p##lascl(int,R,R,D_,SQ); void plasma_omp_##p##laset(int,T,T,D_,SQ); void plasma_omp_##p##geswp(int,D_,int*,int,SQ); \
void plasma_omp_##p##lange(int,D_,R*,R*,SQ); void plasma_omp_##p##lansy(int,int,D_,R*,R*,SQ); void plasma_omp_##p##lantr(int,int,int,D_,R*,R*,SQ); void plasma_omp_##p##langb(int,D_,R*,R*,SQ); void plasma_omp_##AM(int,D_,R*,R*,SQ); \
void plasma_omp_##p##potrf(int,D_,SQ); void plasma_omp_##p##potrs(int,D_,D_,SQ); void plasma_omp_##p##posv(int,D_,D_,SQ); void plasma_omp_##p##potri(int,D_,SQ); void plasma_omp_##p##poinv(int,D_,SQ); void plasma_omp_##p##lauum(int,D_,SQ); void plasma_omp_##p##trtri(int,int,D_,SQ); \
void plasma_omp_##p##pbtrf(int,D_,SQ); void plasma_omp_##p##pbtrs(int,D_,D_,SQ); void plasma_omp_##p##pbsv(int,D_,D_,SQ); \
void plasma_omp_##p##getrf(D_,int*,SQ); void plasma_omp_##p##getrs(int,D_,int*,D_,SQ); void plasma_omp_##p##gesv(D_,int*,D_,SQ); void plasma_omp_##p##getri(D_,int*,D_,SQ); void plasma_omp_##p##getri_aux(D_,D_,SQ); void plasma_omp_##p##geinv(D_,int*,D_,SQ); \
void plasma_omp_##p##gbtrf(D_,int*,SQ); void plasma_omp_##p##gbtrs(int,D_,int*,D_,SQ); void plasma_omp_##p##gbsv(D_,int*,D_,SQ); \
void plasma_omp_##p##geqrf(D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##gelqf(D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##geqrs(D_,D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##gelqs(D_,D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##gels(int,D_,D_,D_,plasma_workspace_t,SQ); \
void plasma_omp_##p##UN##gqr(D_,D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##UN##glq(D_,D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##UN##mqr(int,int,D_,D_,D_,plasma_workspace_t,SQ); void plasma_omp_##p##UN##mlq(int,int,D_,D_,D_,plasma_workspace_t,SQ); \
void plasma_omp_##p##HE##trf(int,D_,int*,D_,int*,D_,SQ); void plasma_omp_##p##HE##trs(int,D_,int*,D_,int*,D_,SQ); void plasma_omp_##p##HE##sv(int,D_,int*,D_,int*,D_,D_,SQ); \
void plasma_omp_##p##gesdd(int,int,D_,D_,R*,T*,int,T*,int,plasma_workspace_t,SQ); \
void plasma_omp_##p##ge2desc(T*,int,D_,SQ); void plasma_omp_##p##desc2ge(D_,T*,int,SQ); void plasma_omp_##p##pb2desc(T*,int,D_,SQ); void plasma_omp_##p##desc2pb(D_,T*,int,SQ); void plasma_omp_##p##tr2desc(T*,int,D_,SQ); void plasma_omp_##p##desc2tr(D_,T*,int,SQ); void plasma_omp_##p##gb2desc(T*,int,D_,SQ); }
DECL_OMP(s, s_t, float, or, sy, samax) DECL_OMP(d, d_t, double, or, sy, damax) DECL_OMP(c, c_t, float, un, he, scamax) DECL_OMP(z, z_t, double, un, he, dzamax)
extern "C" {
void plasma_omp_chemm(int,int,c_t,D_,D_,c_t,D_,SQ); void plasma_omp_zhemm(int,int,z_t,D_,D_,z_t,D_,SQ); void plasma_omp_cherk(int,int,float,D_,float,D_,SQ); void plasma_omp_zherk(int,int,double,D_,double,D_,SQ); void plasma_omp_cher2k(int,int,c_t,D_,D_,float,D_,SQ); void plasma_omp_zher2k(int,int,z_t,D_,D_,double,D_,SQ);
void plasma_omp_clanhe(int,int,D_,float*,float*,SQ); void plasma_omp_zlanhe(int,int,D_,double*,double*,SQ);
void plasma_omp_dsgesv(D_,int*,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ); void plasma_omp_zcgesv(D_,int*,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ);
void plasma_omp_dsposv(int,D_,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ); void plasma_omp_zcposv(int,D_,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ);
void plasma_omp_dsgbsv(D_,int*,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ); void plasma_omp_zcgbsv(D_,int*,D_,D_,D_,D_,D_,double*,double*,double*,int*,SQ);
void plasma_omp_dlag2s(D_,D_,SQ); void plasma_omp_zlag2c(D_,D_,SQ); void plasma_omp_slag2d(D_,D_,SQ); void plasma_omp_clag2z(D_,D_,SQ);
}
template<class T> struct OMP;
#define O_(p, n) static constexpr auto n = plasma_omp_##p##n;
#define O2(p, n, a) static constexpr auto a = plasma_omp_##p##n;
#define DEF_OMP(p, T, UN, HE, AM) template<> struct OMP<T> { O_(p,gemm) O_(p,symm) O_(p,syrk) O_(p,syr2k) O_(p,trmm) O_(p,trsm) O_(p,gbmm) O_(p,geadd) O_(p,tradd) O_(p,lacpy) O_(p,lascl) O_(p,laset) O_(p,geswp) O_(p,lange) O_(p,lansy) O_(p,lantr) O_(p,langb) \
 O_(p,potrf) O_(p,potrs) O_(p,posv) O_(p,potri) O_(p,poinv) O_(p,lauum) O_(p,trtri) O_(p,pbtrf) O_(p,pbtrs) O_(p,pbsv) O_(p,getrf) O_(p,getrs) O_(p,gesv) O_(p,getri) O_(p,getri_aux) O_(p,geinv) O_(p,gbtrf) O_(p,gbtrs) O_(p,gbsv) \
 O_(p,geqrf) O_(p,gelqf) O_(p,geqrs) O_(p,gelqs) O_(p,gels) O2(p,UN##gqr,ungqr) O2(p,UN##glq,unglq) O2(p,UN##mqr,unmqr) O2(p,UN##mlq,unmlq) O2(p,HE##trf,hetrf) O2(p,HE##trs,hetrs) O2(p,HE##sv,hesv) O_(p,gesdd) \
 O_(p,ge2desc) O_(p,desc2ge) O_(p,pb2desc) O_(p,desc2pb) O_(p,tr2desc) O_(p,desc2tr) O_(p,gb2desc) static constexpr auto amax = plasma_omp_##AM; };
DEF_OMP(s, s_t, or, sy, samax) DEF_OMP(d, d_t, or, sy, damax) DEF_OMP(c, c_t, un, he, scamax) DEF_OMP(z, z_t, un, he, dzamax)
template<class T> struct OMPH;
template<> struct OMPH<c_t> { static constexpr auto hemm = plasma_omp_chemm, hemm_ = hemm; static constexpr auto herk = plasma_omp_cherk; static constexpr auto her2k = plasma_omp_cher2k; static constexpr auto lanhe = plasma_omp_clanhe; };
template<> struct OMPH<z_t> { static constexpr auto hemm = plasma_omp_zhemm, hemm_ = hemm; static constexpr auto herk = plasma_omp_zherk; static constexpr auto her2k = plasma_omp_zher2k; static constexpr auto lanhe = plasma_omp_zlanhe; };
template<class T> struct OMPM;
template<> struct OMPM<d_t> { static constexpr auto gesv = plasma_omp_dsgesv; static constexpr auto posv = plasma_omp_dsposv; static constexpr auto gbsv = plasma_omp_dsgbsv; static constexpr auto lag2 = plasma_omp_dlag2s, lag2_ = lag2; static constexpr auto lagd = plasma_omp_slag2d; static const int lo = PlasmaRealFloat; typedef s_t L; };
template<> struct OMPM<z_t> { static constexpr auto gesv = plasma_omp_zcgesv; static constexpr auto posv = plasma_omp_zcposv; static constexpr auto gbsv = plasma_omp_zcgbsv; static constexpr auto lag2 = plasma_omp_zlag2c, lag2_ = lag2; static constexpr auto lagd = plasma_omp_clag2z; static const int lo = PlasmaComplexFloat; typedef c_t L; };
#undef O_
#undef O2

// one thread of a parallel region submits, the others help
struct RegionFn { std::function<void()> f; };
static void region_fn(void *v) { if (mc_omp_get_thread_num() == 0) ((RegionFn *)v)->f(); }
static inline void in_parallel(const std::function<void()> &f) { RegionFn r{f}; mc_GOMP_parallel(region_fn, &r, 0, 0); }

// The operands of one history.  Two pools built with the same seed hold the same bits.
template<class T> struct Pool {
    typedef typename Tr<T>::R R; static const int MAXOPS = 4, NVAL = 16;
    int n, r, nb, ib; std::string err; plasma_desc_t A, B, C, X, H, HI, G, K, G2, K2, TG, TK, TR, AB, PB, TD, TQ, W, WA, AS, XS, RS, XM, ABS; plasma_workspace_t work; bool have_work = false;
    std::vector<plasma_desc_t *> all; int *ipiv, *ipiv2, *iter; T *F, *FT, *FB, *U, *V; R *S, *val, *wk[MAXOPS]; double *dwk[MAXOPS], *nrm1, *nrm2; size_t wkn;
    std::vector<std::pair<std::string, std::pair<char *, size_t>>> mem;
    u64 seed; double uni() { seed += 0x9e3779b97f4a7c15ull; u64 z = seed; z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; z ^= z >> 31; return (double)(int64_t)(z >> 40) / (double)(1 << 23) - 1.0; }
    T rv() { double a = uni(), b = Tr<T>::cx ? uni() : 0; return mk<T>(Z(a, b)); }
    static size_t bytes_of(const plasma_desc_t &d) {
        size_t e = plasma_element_size(d.precision);
        if (d.type == PlasmaUpper || d.type == PlasmaLower) { size_t q = d.gm / d.mb, s = d.gn % d.nb; return (q * (q + 1) / 2 * d.mb * d.nb + (size_t)d.gm * s) * e; }
        return (size_t)d.gm * d.gn * e;
    }
    template<class E> E *el(const plasma_desc_t &d, int i, int j) {
        bool band = d.type == PlasmaGeneralBand; int tm = i / d.mb, tn = j / d.nb;
        if (band && (tn - tm >= d.kut || tm - tn >= d.klt)) return nullptr;
        if ((d.type == PlasmaUpper && tm > tn) || (d.type == PlasmaLower && tm < tn)) return nullptr;
        int ld = band ? plasma_tile_mmain_band(d, tm, tn) : plasma_tile_mmain(d, tm);
        return (E *)plasma_tile_addr(d, tm, tn) + (size_t)(j % d.nb) * ld + i % d.mb;
    }
    void desc(const char *nm, plasma_desc_t &d, int rc) { if (rc && err.empty()) { err = std::string("creating ") + nm + " failed"; d.matrix = nullptr; return; } all.push_back(&d); memset(d.matrix, 0, bytes_of(d)); mem.push_back({nm, {(char *)d.matrix, bytes_of(d)}}); }
    template<class E> E *raw(const char *nm, size_t k, bool cmp = true) { E *p = (E *)mc::ualloc(k * sizeof(E), nm); memset((void *)p, 0, k * sizeof(E)); if (cmp) mem.push_back({nm, {(char *)p, k * sizeof(E)}}); return p; }
    void ge(const char *nm, plasma_desc_t &d, int m, int k, int prec = Tr<T>::ty) { desc(nm, d, plasma_desc_general_create(prec, nb, nb, m, k, 0, 0, m, k, &d)); }
    Pool(int n_, int r_, const Env &e, u64 sd) : n(n_), r(r_), nb(e.nb), ib(e.ib), seed(sd) {
        int nt = (n + nb - 1) / nb; all.reserve(24);
        ge("A", A, n, n); ge("B", B, n, n); ge("C", C, n, n); ge("X", X, n, r); ge("H", H, n, n); ge("I", HI, n, n); ge("G", G, n, n + 2 * nb); ge("K", K, n + 2 * nb, n); ge("G2", G2, n, n + 2 * nb); ge("K2", K2, n + 2 * nb, n); ge("W", W, n, nb); ge("WA", WA, (1 + 7 * nt) * nb, nb); ge("RS", RS, n, r); ge("XM", XM, n, r);
        desc("TR", TR, plasma_desc_triangular_create(Tr<T>::ty, PlasmaLower, nb, nb, n, n, 0, 0, n, n, &TR));
        int kl = std::min(1, n - 1), ku = std::min(2, n - 1), tk = (ku + kl + nb - 1) / nb, tl = (kl + nb - 1) / nb;
        desc("AB", AB, plasma_desc_general_band_create(Tr<T>::ty, PlasmaGeneral, nb, nb, (tk + tl + 1) * nb, n, 0, 0, n, n, kl, ku, &AB));
        desc("PB", PB, plasma_desc_general_band_create(Tr<T>::ty, PlasmaLower, nb, nb, (tl + 1) * nb, n, 0, 0, n, n, kl, kl, &PB));
        int kb = std::min(nb, n - 1), kt = (2 * kb + nb - 1) / nb + (kb + nb - 1) / nb + 1;
        desc("TB", TD, plasma_desc_general_band_create(Tr<T>::ty, PlasmaGeneral, nb, nb, kt * nb, n, 0, 0, n, n, kb, kb, &TD));
        desc("TG", TG, plasma_descT_create(G, ib, e.hh, &TG)); desc("TK", TK, plasma_descT_create(K, ib, e.hh, &TK)); desc("TQ", TQ, plasma_descT_create(A, ib, e.hh, &TQ));
        if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) { ge("AS", AS, n, n, OMPM<T>::lo); ge("XS", XS, n, r, OMPM<T>::lo); desc("ABS", ABS, plasma_desc_general_band_create(OMPM<T>::lo, PlasmaGeneral, nb, nb, (tk + tl + 1) * nb, n, 0, 0, n, n, kl, ku, &ABS)); }
        if (err.empty() && plasma_workspace_create(&work, nb + ib * nb + 4 * nb * nb, Tr<T>::ty)) err = "creating the workspace failed"; else have_work = err.empty();
        if (!err.empty()) return;
        ipiv = raw<int>("ipiv", n); ipiv2 = raw<int>("ipiv2", n); iter = raw<int>("iter", 1, false); F = raw<T>("F", (size_t)(n + 1) * (n + 2 * nb)); FT = raw<T>("FT", (size_t)(n + 1) * n); FB = raw<T>("FB", (size_t)(tl + 2) * nb * n); U = raw<T>("U", (size_t)n * n); V = raw<T>("VT", (size_t)n * n); S = raw<R>("S", n); val = raw<R>("values", NVAL * n);
        wkn = (size_t)(nt + 2) * (n + nb) * 4 + 4 * n * 8; for (int i = 0; i < MAXOPS; i++) { wk[i] = raw<R>("work", wkn, false); dwk[i] = raw<double>("work", wkn, false); } nrm1 = raw<double>("Rnorm", r, false); nrm2 = raw<double>("Xnorm", r, false);
        auto fill = [&](plasma_desc_t &d, double diag, bool he, bool unitish = false) { for (int j = 0; j < d.n; j++) for (int i = he ? j : 0; i < d.m; i++) { T v = rv(); if (unitish) v = mk<T>(up<T>(v) * 0.3); if (i == j) v = mk<T>(he ? Z(up<T>(v).real() + diag) : up<T>(v) + diag); if (T *p = el<T>(d, i, j)) *p = v; if (he && i != j) if (T *p = el<T>(d, j, i)) *p = mk<T>(std::conj(up<T>(v))); } };
        fill(A, 3 + n, false); fill(B, 2, false); fill(C, 0.5, false); fill(X, 0, false); fill(H, 2.0 * n, true); fill(HI, 0.1, true); fill(TR, 2.0 * n, false); fill(TQ, 0, false, true); fill(TG, 0, false, true); fill(TK, 0, false, true); fill(G, 2, false); fill(G2, 0, false); fill(K2, 0, false); fill(K, 1 + n, false); fill(XM, 0, false); fill(RS, 0, false);
        for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { T v = rv(); if (i - j <= kl && j - i <= ku) *el<T>(AB, i, j) = i == j ? mk<T>(up<T>(v) + 4.0) : v; if (i >= j && i - j <= kl) *el<T>(PB, i, j) = i == j ? mk<T>(Z(4.0 + up<T>(v).real())) : v; if (i >= j && i - j <= kb) { T w = i == j ? mk<T>(Z(3.0 + up<T>(v).real())) : v; *el<T>(TD, i, j) = w; *el<T>(TD, j, i) = mk<T>(std::conj(up<T>(w))); } }
        if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) { typedef typename OMPM<T>::L L; for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) { *el<L>(AS, i, j) = mk<L>(up<T>(rv())); if (j < r) *el<L>(XS, i, j) = mk<L>(up<T>(rv())); } }
        for (int i = 0; i < n; i++) { ipiv[i] = i + 1 + (i % 2 ? 0 : std::min(1, n - 1 - i)); ipiv2[i] = i + 1; }
        for (size_t i = 0; i < (size_t)(n + 1) * n; i++) { F[i] = rv(); FT[i] = rv(); } for (size_t i = (size_t)(n + 1) * n; i < (size_t)(n + 1) * (n + 2 * nb); i++) F[i] = rv(); for (size_t i = 0; i < (size_t)(tl + 2) * nb * n; i++) FB[i] = rv(); for (int i = 0; i < NVAL * n; i++) val[i] = (R)uni();
    }
    ~Pool() {}
    void destroy() { for (auto d : all) plasma_desc_destroy(d); if (have_work) plasma_workspace_destroy(&work); }
    std::vector<std::string> bits() const { std::vector<std::string> v; for (auto &m : mem) v.push_back(std::string(m.second.first, m.second.second)); return v; }
    std::string differs(const std::vector<std::string> &o) const { for (size_t i = 0; i < mem.size(); i++) if (memcmp(mem[i].second.first, o[i].data(), o[i].size())) { size_t k = 0; while (mem[i].second.first[k] == o[i][k]) k++; char b[120]; snprintf(b, sizeof b, "%s (byte %zu)", mem[i].first.c_str(), k); return b; } return ""; }
};
// An asynchronous call on the pool; slot: its place in the history (own norm workspace and value)
template<class T> struct AsyncOp { const char *name; std::function<void(Pool<T> &, int, plasma_sequence_t *, plasma_request_t *)> f; };
template<class T> const std::vector<AsyncOp<T>> &async_ops() {
    typedef Pool<T> P; typedef OMP<T> O; typedef plasma_sequence_t *Q; typedef plasma_request_t *Rq; static std::vector<AsyncOp<T>> v; if (!v.empty()) return v;
    static const int CT_ = CT<T>(); typedef typename Tr<T>::R R;
#define OP(nm, ...) v.push_back({nm, [](P &p, int slot, Q s, Rq q) { (void)slot; __VA_ARGS__; }})
    const int N_ = PlasmaNoTrans; (void)N_;
    OP("gemm C=AB", O::gemm(PlasmaNoTrans, PlasmaNoTrans, T(0.5), p.A, p.B, T(0.5), p.C, s, q));
    OP("gemm B=A'C", O::gemm(CT_, PlasmaNoTrans, T(0.25), p.A, p.C, T(1), p.B, s, q));
    OP("gemm X=BX2", O::gemm(PlasmaNoTrans, PlasmaNoTrans, T(0.5), p.B, p.XM, T(0), p.X, s, q));
    OP("symm C=HB", O::symm(PlasmaLeft, PlasmaLower, T(0.1), p.H, p.B, T(1), p.C, s, q));
    OP("symm B=CH", O::symm(PlasmaRight, PlasmaUpper, T(0.1), p.H, p.C, T(0.5), p.B, s, q));
    OP("syrk C=AA", O::syrk(PlasmaLower, PlasmaNoTrans, T(0.1), p.A, T(1), p.C, s, q));
    OP("syr2k C=AB", O::syr2k(PlasmaUpper, PlasmaTrans, T(0.1), p.A, p.B, T(1), p.C, s, q));
    if constexpr (Tr<T>::cx) {
        OP("hemm C=HB", OMPH<T>::hemm(PlasmaLeft, PlasmaLower, T(0.1), p.H, p.B, T(1), p.C, s, q));
        OP("herk H=AA", OMPH<T>::herk(PlasmaLower, PlasmaNoTrans, (R)0.05, p.A, (R)1, p.H, s, q));
        OP("her2k H=AB", OMPH<T>::her2k(PlasmaUpper, PlasmaConjTrans, T(0.05), p.A, p.B, (R)1, p.H, s, q));
        for (int i = 0; i < 1; i++) OP("lanhe H", OMPH<T>::lanhe(PlasmaInfNorm, PlasmaLower, p.H, p.wk[slot], p.val + slot, s, q));
    }
    OP("trmm B=AB", O::trmm(PlasmaLeft, PlasmaUpper, PlasmaNoTrans, PlasmaNonUnit, T(0.25), p.A, p.B, s, q));
    OP("trmm C=CA'", O::trmm(PlasmaRight, PlasmaLower, CT_, PlasmaUnit, T(0.25), p.A, p.C, s, q));
    OP("trsm X=A\\X", O::trsm(PlasmaLeft, PlasmaLower, PlasmaNoTrans, PlasmaNonUnit, T(1), p.A, p.X, s, q));
    OP("trsm B=B/A'", O::trsm(PlasmaRight, PlasmaUpper, CT_, PlasmaNonUnit, T(1), p.A, p.B, s, q));
    OP("gbmm C=ABB", O::gbmm(PlasmaNoTrans, PlasmaNoTrans, T(0.5), p.AB, p.B, T(1), p.C, s, q));
    OP("geadd B+=A", O::geadd(PlasmaNoTrans, T(0.5), p.A, T(0.5), p.B, s, q));
    OP("geadd A+=C'", O::geadd(CT_, T(0.25), p.C, T(1), p.A, s, q));
    OP("tradd C+=A", O::tradd(PlasmaLower, PlasmaNoTrans, T(0.5), p.A, T(0.5), p.C, s, q));
    OP("tradd B+=H", O::tradd(PlasmaUpper, PlasmaNoTrans, T(0.5), p.H, T(1), p.B, s, q));
    OP("lacpy B=A", O::lacpy(PlasmaGeneral, PlasmaNoTrans, p.A, p.B, s, q));
    OP("lacpy C=B'", O::lacpy(PlasmaGeneral, PlasmaTrans, p.B, p.C, s, q));
    OP("lacpy H=A L", O::lacpy(PlasmaLower, PlasmaNoTrans, p.A, p.H, s, q));
    OP("lascl A", O::lascl(PlasmaGeneral, (R)2, (R)1, p.A, s, q));
    OP("lascl H L", O::lascl(PlasmaLower, (R)1, (R)2, p.H, s, q));
    OP("laset C", O::laset(PlasmaGeneral, T(0.5), T(2), p.C, s, q));
    OP("laset B U", O::laset(PlasmaUpper, T(0.5), T(2), p.B, s, q));
    OP("geswp A rows", O::geswp(PlasmaRowwise, p.A, p.ipiv, 1, s, q));
    OP("geswp X rows back", O::geswp(PlasmaRowwise, p.X, p.ipiv, -1, s, q));
    OP("geswp B columns", O::geswp(PlasmaColumnwise, p.B, p.ipiv, 1, s, q));
    OP("lange A max", O::lange(PlasmaMaxNorm, p.A, p.wk[slot], p.val + slot, s, q)); OP("lange A one", O::lange(PlasmaOneNorm, p.A, p.wk[slot], p.val + slot, s, q));
    OP("lange B inf", O::lange(PlasmaInfNorm, p.B, p.wk[slot], p.val + slot, s, q)); OP("lange C fro", O::lange(PlasmaFrobeniusNorm, p.C, p.wk[slot], p.val + slot, s, q));
    OP("lansy H one", O::lansy(PlasmaOneNorm, PlasmaUpper, p.H, p.wk[slot], p.val + slot, s, q)); OP("lansy C fro", O::lansy(PlasmaFrobeniusNorm, PlasmaLower, p.C, p.wk[slot], p.val + slot, s, q)); OP("lansy H max", O::lansy(PlasmaMaxNorm, PlasmaLower, p.H, p.wk[slot], p.val + slot, s, q));
    OP("lantr A inf", O::lantr(PlasmaInfNorm, PlasmaLower, PlasmaNonUnit, p.A, p.wk[slot], p.val + slot, s, q)); OP("lantr B one", O::lantr(PlasmaOneNorm, PlasmaUpper, PlasmaUnit, p.B, p.wk[slot], p.val + slot, s, q)); OP("lantr C fro", O::lantr(PlasmaFrobeniusNorm, PlasmaUpper, PlasmaNonUnit, p.C, p.wk[slot], p.val + slot, s, q)); OP("lantr A max", O::lantr(PlasmaMaxNorm, PlasmaUpper, PlasmaNonUnit, p.A, p.wk[slot], p.val + slot, s, q));
    OP("amax A columns", O::amax(PlasmaColumnwise, p.A, p.wk[slot], p.val + (4 + slot) * p.n, s, q)); OP("amax B rows", O::amax(PlasmaRowwise, p.B, p.wk[slot], p.val + (4 + slot) * p.n, s, q));
    OP("potrf H", O::potrf(PlasmaLower, p.H, s, q)); OP("potrf H U", O::potrf(PlasmaUpper, p.H, s, q)); OP("potrf TR", O::potrf(PlasmaLower, p.TR, s, q));
    OP("potrs H X", O::potrs(PlasmaLower, p.H, p.X, s, q)); OP("posv H X", O::posv(PlasmaUpper, p.H, p.X, s, q)); OP("posv TR X", O::posv(PlasmaLower, p.TR, p.X, s, q));
    OP("potri H", O::potri(PlasmaLower, p.H, s, q)); OP("poinv H", O::poinv(PlasmaUpper, p.H, s, q)); OP("poinv H L", O::poinv(PlasmaLower, p.H, s, q)); OP("lauum A", O::lauum(PlasmaLower, p.A, s, q)); OP("lauum H U", O::lauum(PlasmaUpper, p.H, s, q)); OP("trtri A", O::trtri(PlasmaUpper, PlasmaNonUnit, p.A, s, q)); OP("trtri H L", O::trtri(PlasmaLower, PlasmaUnit, p.H, s, q));
    OP("pbtrf PB", O::pbtrf(PlasmaLower, p.PB, s, q)); OP("pbtrs PB X", O::pbtrs(PlasmaLower, p.PB, p.X, s, q)); OP("pbsv PB X", O::pbsv(PlasmaLower, p.PB, p.X, s, q));
    OP("getrf A", O::getrf(p.A, p.ipiv, s, q)); OP("getrf C", O::getrf(p.C, p.ipiv2, s, q)); OP("getrs A X", O::getrs(PlasmaNoTrans, p.A, p.ipiv, p.X, s, q)); OP("getrs A' B", O::getrs(CT_, p.A, p.ipiv, p.B, s, q)); OP("gesv A X", O::gesv(p.A, p.ipiv, p.X, s, q)); OP("gesv B X", O::gesv(p.B, p.ipiv, p.X, s, q));
    OP("getri A", O::getri(p.A, p.ipiv, p.W, s, q)); OP("getri_aux A", O::getri_aux(p.A, p.W, s, q)); OP("geinv A", O::geinv(p.A, p.ipiv, p.W, s, q));
    OP("gbtrf AB", O::gbtrf(p.AB, p.ipiv, s, q)); OP("gbtrs AB X", O::gbtrs(PlasmaNoTrans, p.AB, p.ipiv, p.X, s, q)); OP("gbsv AB X", O::gbsv(p.AB, p.ipiv, p.X, s, q));
    OP("geqrf A", O::geqrf(p.A, p.TQ, p.work, s, q)); OP("gelqf A", O::gelqf(p.A, p.TQ, p.work, s, q)); OP("geqrf B", O::geqrf(p.B, p.TQ, p.work, s, q)); OP("geqrs A X", O::geqrs(p.A, p.TQ, p.X, p.work, s, q)); OP("gelqs A X", O::gelqs(p.A, p.TQ, p.X, p.work, s, q)); OP("gels A X", O::gels(PlasmaNoTrans, p.A, p.TQ, p.X, p.work, s, q)); OP("gels B' X", O::gels(CT_, p.B, p.TQ, p.X, p.work, s, q));
    OP("ungqr A B", O::ungqr(p.A, p.TQ, p.B, p.work, s, q)); OP("unglq A C", O::unglq(p.A, p.TQ, p.C, p.work, s, q)); OP("unmqr A C", O::unmqr(PlasmaLeft, CT_, p.A, p.TQ, p.C, p.work, s, q)); OP("unmqr A B right", O::unmqr(PlasmaRight, PlasmaNoTrans, p.A, p.TQ, p.B, p.work, s, q)); OP("unmlq A X", O::unmlq(PlasmaLeft, PlasmaNoTrans, p.A, p.TQ, p.X, p.work, s, q)); OP("unmlq A B right", O::unmlq(PlasmaRight, CT_, p.A, p.TQ, p.B, p.work, s, q));
    OP("hetrf I", O::hetrf(PlasmaLower, p.HI, p.ipiv, p.TD, p.ipiv2, p.WA, s, q)); OP("hetrs I X", O::hetrs(PlasmaLower, p.HI, p.ipiv, p.TD, p.ipiv2, p.X, s, q)); OP("hesv I X", O::hesv(PlasmaLower, p.HI, p.ipiv, p.TD, p.ipiv2, p.X, p.WA, s, q));
    OP("gesdd B", O::gesdd(PlasmaNoVec, PlasmaNoVec, p.B, p.TQ, p.S, p.U, p.n, p.V, p.n, p.work, s, q)); OP("gesdd A vectors", O::gesdd(PlasmaSomeVec, PlasmaSomeVec, p.A, p.TQ, p.S, p.U, p.n, p.V, p.n, p.work, s, q));
    OP("ge2desc A", O::ge2desc(p.F, p.n + 1, p.A, s, q)); OP("desc2ge A", O::desc2ge(p.A, p.F, p.n + 1, s, q)); OP("desc2ge B", O::desc2ge(p.B, p.F, p.n + 1, s, q)); OP("tr2desc TR", O::tr2desc(p.FT, p.n + 1, p.TR, s, q)); OP("desc2tr TR", O::desc2tr(p.TR, p.FT, p.n + 1, s, q)); OP("pb2desc PB", O::pb2desc(p.FB, (std::min(1, p.n - 1) + p.nb - 1) / p.nb * p.nb + 2 * p.nb, p.PB, s, q)); OP("desc2pb PB", O::desc2pb(p.PB, p.FB, (std::min(1, p.n - 1) + p.nb - 1) / p.nb * p.nb + 2 * p.nb, s, q)); OP("gb2desc AB", O::gb2desc(p.FT, p.n + 1, p.AB, s, q));
    // a wide, a tall and a second indefinite matrix
    OP("gemm C=GK", O::gemm(PlasmaNoTrans, PlasmaNoTrans, T(0.25), p.G, p.K, T(1), p.C, s, q)); OP("gemm K=K+G'A", O::gemm(CT_, PlasmaNoTrans, T(0.25), p.G, p.A, T(1), p.K, s, q)); OP("gemm G=AG", O::gemm(PlasmaNoTrans, PlasmaNoTrans, T(0.25), p.H, p.G, T(0.5), p.G2, s, q)); OP("syrk C=K'K", O::syrk(PlasmaLower, PlasmaTrans, T(0.1), p.K, T(1), p.C, s, q));
    OP("trmm G=AG", O::trmm(PlasmaLeft, PlasmaLower, PlasmaNoTrans, PlasmaNonUnit, T(0.25), p.A, p.G, s, q)); OP("trsm K=K/A", O::trsm(PlasmaRight, PlasmaUpper, PlasmaNoTrans, PlasmaNonUnit, T(0.5), p.A, p.K, s, q)); OP("geadd K+=G'", O::geadd(CT_, T(0.5), p.G, T(1), p.K, s, q)); OP("geadd G2+=G", O::geadd(PlasmaNoTrans, T(0.5), p.G, T(1), p.G2, s, q)); OP("lacpy G2=G", O::lacpy(PlasmaGeneral, PlasmaNoTrans, p.G, p.G2, s, q)); OP("lascl K", O::lascl(PlasmaGeneral, (R)2, (R)1, p.K, s, q)); OP("laset G L", O::laset(PlasmaLower, T(0.5), T(1), p.G, s, q)); OP("tradd G2+=G U", O::tradd(PlasmaUpper, PlasmaNoTrans, T(0.5), p.G, T(1), p.G2, s, q));
    OP("geswp G rows", O::geswp(PlasmaRowwise, p.G, p.ipiv, 1, s, q)); OP("geswp K columns", O::geswp(PlasmaColumnwise, p.K, p.ipiv, -1, s, q)); OP("lange G one", O::lange(PlasmaOneNorm, p.G, p.wk[slot], p.val + slot, s, q)); OP("lange K inf", O::lange(PlasmaInfNorm, p.K, p.wk[slot], p.val + slot, s, q)); OP("lantr K fro", O::lantr(PlasmaFrobeniusNorm, PlasmaUpper, PlasmaNonUnit, p.K, p.wk[slot], p.val + slot, s, q));
    OP("getrf G", O::getrf(p.G, p.ipiv, s, q)); OP("getrf K", O::getrf(p.K, p.ipiv, s, q)); OP("geqrf K", O::geqrf(p.K, p.TK, p.work, s, q)); OP("gelqf G", O::gelqf(p.G, p.TG, p.work, s, q)); OP("gelqf K", O::gelqf(p.K, p.TK, p.work, s, q)); OP("geqrf G", O::geqrf(p.G, p.TG, p.work, s, q)); OP("ungqr K", O::ungqr(p.K, p.TK, p.K2, p.work, s, q)); OP("unglq G", O::unglq(p.G, p.TG, p.G2, p.work, s, q)); OP("unmqr K2", O::unmqr(PlasmaLeft, CT_, p.K, p.TK, p.K2, p.work, s, q)); OP("unmlq G2", O::unmlq(PlasmaRight, CT_, p.G, p.TG, p.G2, p.work, s, q)); OP("gels K K2", O::gels(PlasmaNoTrans, p.K, p.TK, p.K2, p.work, s, q)); OP("gels G K2", O::gels(PlasmaNoTrans, p.G, p.TG, p.K2, p.work, s, q)); OP("gesdd K", O::gesdd(PlasmaNoVec, PlasmaNoVec, p.K, p.TK, p.S, p.U, p.n, p.V, p.n, p.work, s, q)); OP("gesdd G", O::gesdd(PlasmaNoVec, PlasmaNoVec, p.G, p.TG, p.S, p.U, p.n, p.V, p.n, p.work, s, q));
    OP("desc2ge G", O::desc2ge(p.G, p.F, p.n + 1, s, q)); OP("ge2desc G", O::ge2desc(p.F, p.n + 1, p.G, s, q)); OP("amax K columns", O::amax(PlasmaColumnwise, p.K, p.wk[slot], p.val + (4 + slot) * p.n, s, q));
    OP("lacpy I=H", O::lacpy(PlasmaGeneral, PlasmaNoTrans, p.H, p.HI, s, q)); OP("symm C=IB", O::symm(PlasmaLeft, PlasmaLower, T(0.1), p.HI, p.B, T(1), p.C, s, q)); OP("lansy I inf", O::lansy(PlasmaInfNorm, PlasmaLower, p.HI, p.wk[slot], p.val + slot, s, q)); OP("syrk I=AA", O::syrk(PlasmaLower, PlasmaNoTrans, T(0.05), p.A, T(1), p.HI, s, q)); OP("desc2ge I", O::desc2ge(p.HI, p.F, p.n + 1, s, q)); OP("ge2desc I", O::ge2desc(p.F, p.n + 1, p.HI, s, q)); OP("tradd C+=I", O::tradd(PlasmaLower, PlasmaNoTrans, T(0.5), p.HI, T(1), p.C, s, q));
    OP("langb AB one", O::langb(PlasmaOneNorm, p.AB, p.wk[slot], p.val + slot, s, q)); OP("langb AB fro", O::langb(PlasmaFrobeniusNorm, p.AB, p.wk[slot], p.val + slot, s, q)); OP("langb AB max", O::langb(PlasmaMaxNorm, p.AB, p.wk[slot], p.val + slot, s, q)); OP("langb AB inf", O::langb(PlasmaInfNorm, p.AB, p.wk[slot], p.val + slot, s, q));
    if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) { typedef OMPM<T> M;
        OP("lag2 A", M::lag2(p.A, p.AS, s, q)); OP("lag2d A", M::lagd(p.AS, p.A, s, q)); OP("lag2d C", M::lagd(p.AS, p.C, s, q));
        OP("mixed gesv", M::gesv(p.A, p.ipiv, p.X, p.XM, p.AS, p.XS, p.RS, p.dwk[slot], p.nrm1, p.nrm2, p.iter, s, q)); OP("mixed posv", M::posv(PlasmaLower, p.H, p.X, p.XM, p.AS, p.XS, p.RS, p.dwk[slot], p.nrm1, p.nrm2, p.iter, s, q)); OP("mixed gbsv", M::gbsv(p.AB, p.ipiv, p.X, p.XM, p.ABS, p.XS, p.RS, p.dwk[slot], p.nrm1, p.nrm2, p.iter, s, q));
    }
#undef OP
    return v;
}
