// Inputs with infinities and NaNs at every position class: only termination is required of them.
#include "h.h"
#include "dat.h"
namespace {
template<class T> void poison(Cx &c, Arr<T> A, int where) {
    c.fill_uni(A); int m = A.m, n = A.n; if (!m || !n) return;
    double v = where % 2 ? INFINITY : NAN; Z x(v, Tr<T>::cx && where > 3 ? v : 0);
    switch (where / 2) { case 0: A.set(0, 0, x); break; case 1: A.set(m - 1, n - 1, x); break; case 2: for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.set(i, j, x); break; default: A.set(m / 2, n / 2, x); A.set(m - 1, 0, -x); }
}
template<class T> void nan_call(Cx &c, int what, int n, int where) {
    typedef typename Tr<T>::R R; int nb = c.env.nb;
    int rows = what == 2 || what == 11 ? band_rows(2, 1, nb) : what == 4 ? 3 : n;
    auto A = c.out<T>("A", rows, n, 1 - (what == 2 || what == 11)); auto B = c.out<T>("B", n, 2, 1), X = c.out<T>("X", n, 2, 1); auto P = c.ints("ipiv", n, true), P2 = c.ints("ipiv2", n, true), It = c.ints("iter", 1, true);
    auto W = c.out<T>("T", band_rows(nb, nb, nb), n, 0); auto S = c.out<R>("S", n, 1, 0); auto U = c.out<T>("U", n, n, 0), V = c.out<T>("VT", n, n, 0);
    poison(c, A, where); c.fill_uni(B); c.fill_uni(X); for (int j = 0; j < n; j++) for (int i = 0; i < W.m; i++) W.set(i, j, 0);
    if (what == 2 || what == 11) for (int j = 0; j < n; j++) for (int i = 0; i < rows; i++) { int r = i - 3 + j; if (i < 2 || i > 5 || r < 0 || r >= n) A.set(i, j, 0); }
    struct TD { plasma_desc_t d; TD() { memset(&d, 0, sizeof d); } ~TD() { if (d.matrix) plasma_desc_destroy(&d); } } t;
    c.call([&]() -> int { switch (what) {
        case 0: return API<T>::gesv(n, 2, A.p, A.ld, P.p, B.p, B.ld);
        case 1: return API<T>::geinv(n, n, A.p, A.ld, P.p);
        case 2: return API<T>::gbsv(n, 2, 1, 2, A.p, A.ld, P.p, B.p, B.ld);
        case 3: return API<T>::posv(PlasmaLower, n, 2, A.p, A.ld, B.p, B.ld);
        case 4: return API<T>::pbsv(PlasmaUpper, n, 2, 2, A.p, A.ld, B.p, B.ld);
        case 5: return API<T>::hesv(PlasmaLower, n, 2, A.p, A.ld, P.p, W.p, W.ld, P2.p, B.p, B.ld);
        case 6: return API<T>::gels(PlasmaNoTrans, n, n, 2, A.p, A.ld, &t.d, B.p, B.ld);
        case 7: return API<T>::gesdd(PlasmaSomeVec, PlasmaSomeVec, n, n, A.p, A.ld, &t.d, S.p, U.p, U.ld, V.p, V.ld);
        case 8: return API<T>::gesdd(PlasmaNoVec, PlasmaNoVec, n, n, A.p, A.ld, &t.d, S.p, nullptr, 1, nullptr, 1);
        default: if constexpr (sizeof(R) == 8) {
            if constexpr (Tr<T>::cx) return what == 9 ? plasma_zcgesv(n, 2, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 10 ? plasma_zcposv(PlasmaUpper, n, 2, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_zcgbsv(n, 2, 1, 2, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p);
            else return what == 9 ? plasma_dsgesv(n, 2, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 10 ? plasma_dsposv(PlasmaUpper, n, 2, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_dsgbsv(n, 2, 1, 2, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p); }
            return 0; } }, "call");
}
template<class R> void nan_stev(Cx &c, int job, int range, int n, int where) {
    auto D = c.out<R>("diag", n, 1, 0), E = c.out<R>("offd", n - 1, 1, 0); poison(c, where % 2 ? D : E, where); c.fill_uni(where % 2 ? E : D);
    auto F = c.ints("found", 1, true); auto V = c.out<R>("val", n, 1, 0); auto Mu = c.ints("mul", n, true); auto Q = c.out<R>("vec", n, n, 0);
    c.call([&]() -> int { if constexpr (std::is_same<R, double>::value) return plasma_dstevx2(job, range, n, n, D.p, E.p, -2, 2, 1, n, F.p, V.p, Mu.p, job == PlasmaVec ? Q.p : nullptr); else return plasma_sstevx2(job, range, n, n, D.p, E.p, -2, 2, 1, n, F.p, V.p, Mu.p, job == PlasmaVec ? Q.p : nullptr); }, "call");
}
template<class T> void en(Sink &S) {
    char t = Tr<T>::p; const char *nm[] = {"gesv", "geinv", "gbsv", "posv", "pbsv", "hesv", "gels", "gesdd", "gesdd", "xgesv", "xposv", "xgbsv"};
    for (int pt : {1, 2}) for (int hh : {0, 1}) { Env e; e.nb = 2; e.ib = 1; e.npt = pt; if (hh) e.hh = PlasmaTreeHouseholder;
        for (int n : S.tier ? std::vector<int>{2, 3, 5, 7} : std::vector<int>{5}) for (int w = 0; w < 8; w++) {
            for (int q = 0; q < 12; q++) { if (pt > 1 && q != 0 && q != 1 && q != 2 && q != 5 && q < 9) continue; if (hh && q != 6) continue; if (q >= 9 && sizeof(typename Tr<T>::R) == 4) continue;
                ADD(S, e, ([=](Cx &c) { nan_call<T>(c, q, n, w); }), "%c%s n%d nonfinite%d c%d", t, nm[q], n, w, q); }
            if constexpr (!Tr<T>::cx) if (pt == 1 && !hh) for (int job : {(int)PlasmaCount, (int)PlasmaNoVec, (int)PlasmaVec}) for (int range : {(int)PlasmaRangeI, (int)PlasmaRangeV})
                ADD(S, e, ([=](Cx &c) { nan_stev<T>(c, job, range, n, w); }), "%cstevx2 n%d nonfinite%d job%d range%d", t, n, w, job, range);
        } }
}
}
void enum_nan(Sink &S) { S.fam = "nonfinite"; en<s_t>(S); en<d_t>(S); en<c_t>(S); en<z_t>(S); }
