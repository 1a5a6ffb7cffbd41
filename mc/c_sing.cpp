// Inputs on which a factorization must fail: an exactly zero pivot or a leading minor that is not positive definite.
#include "h.h"
#include "dat.h"
namespace {
enum How { ZERO, NEG, TWO, ALL };
static const char *hs[] = {"zero", "neg", "two", "all"};
// L*D*L^H with small integers: every leading minor up to p is positive, the one of order p+1 is not; all arithmetic is exact
template<class T> Mat notpd(Cx &c, int n, int p, int how, int kd) {
    Mat l = eye(n, n);
    for (int j = 0; j < n; j++) for (int i = j + 1; i < n && i - j <= kd; i++) l(i, j) = Z(c.irand(-1, 1), Tr<T>::cx ? c.irand(-1, 1) : 0);
    Mat d(n, n); for (int i = 0; i < n; i++) d(i, i) = i % 2 ? 4 : 1;
    d(p, p) = how == ZERO ? 0 : how == ALL ? 0 : -1; if (how == TWO) d(n - 1, n - 1) = -4; if (how == ALL) for (int i = p; i < n; i++) d(i, i) = 0;
    return l * d * ct(l);
}
template<class T> Mat singular(Cx &c, int m, int n, int p, int how) {
    Mat a = gen<T>(c, m, n, 0); int k = std::min(m, n);
    for (int i = 0; i < m; i++) { if (how == ALL) for (int j = p; j < n; j++) a(i, j) = 0; else a(i, p) = 0; if (how == TWO) a(i, k - 1) = 0; }
    if (how == NEG) { for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { a(i, j) = i < j ? a(i, j) : i == j ? Z(2 + j) : Z(0); } a(p, p) = 0; }   // already triangular
    return a;
}
// also: blocks that do not depend on each other may be found offending in any order
static void expect(Cx &c, const char *nm, int want, const std::vector<int> &also = {}) {
    if (c.oom || (c.mode == M_FAULT && c.rc == PlasmaErrorOutOfMemory)) { c.oom = true; return; }
    for (int a : also) if (c.rc == a) return;
    if (c.rc != want) c.badf(RC, "%s returned %d, the first offending row is %d", nm, c.rc, want);
}
template<class T> void untouched(Cx &c, Arr<T> B) { c.same("B", B, [](int, int) { return true; }); }
template<class T> void s_potrf(Cx &c, int what, int u, int n, int p, int how, int kd) {   // 0 potrf 1 posv 2 poinv 3 pbtrf 4 pbsv
    bool band = what >= 3; Mat a = notpd<T>(c, n, p, how, band ? kd : n);
    auto A = c.out<T>("A", band ? kd + 1 : n, n, 1); auto B = c.out<T>("B", n, 3, 1); c.fill_uni(B);
    for (int j = 0; j < n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, 0);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (u == PlasmaLower ? i >= j : i <= j) { if (!band) A.set(i, j, a(i, j)); else if (std::abs(i - j) <= kd) A.set(u == PlasmaLower ? i - j : kd + i - j, j, a(i, j)); }
    c.call([&] { return what == 0 ? API<T>::potrf(u, n, A.p, A.ld) : what == 1 ? API<T>::posv(u, n, 3, A.p, A.ld, B.p, B.ld) : what == 2 ? API<T>::poinv(u, n, A.p, A.ld) : what == 3 ? API<T>::pbtrf(u, n, kd, A.p, A.ld) : API<T>::pbsv(u, n, kd, 3, A.p, A.ld, B.p, B.ld); }, "call");
    std::vector<int> also; if (band && kd == 0) { if (how == TWO) also.push_back(n); if (how == ALL) for (int i = p; i < n; i++) also.push_back(i + 1); }
    expect(c, "the call", p + 1, also); untouched(c, B);
}
template<class T> void s_getrf(Cx &c, int what, int m, int n, int p, int how) {   // 0 getrf 1 gesv 2 geinv
    Mat a = singular<T>(c, m, n, p, how); auto A = c.out<T>("A", m, n, 1); A.put(a); auto P = c.ints("ipiv", std::min(m, n), true); auto B = c.out<T>("B", m, 3, 1); c.fill_uni(B);
    for (int i = 0; i < P.m; i++) P.p[i] = i + 1;
    c.call([&] { return what == 0 ? API<T>::getrf(m, n, A.p, A.ld, P.p) : what == 1 ? API<T>::gesv(n, 3, A.p, A.ld, P.p, B.p, B.ld) : API<T>::geinv(m, n, A.p, A.ld, P.p); }, "call");
    expect(c, "the call", p + 1); untouched(c, B);
}
template<class T> void s_gb(Cx &c, int what, int n, int kl, int ku, int p, int how) {   // 0 gbtrf 1 gbsv
    Mat a = gen_band<T>(c, n, n, kl, ku, 0); for (int i = 0; i < n; i++) { if (how == ALL) for (int j = p; j < n; j++) a(i, j) = 0; else a(i, p) = 0; if (how == TWO) a(i, n - 1) = 0; }
    auto A = c.out<T>("AB", band_rows(kl, ku, c.env.nb), n, 0); auto P = c.ints("ipiv", n, true); auto B = c.out<T>("B", n, 3, 1); c.fill_uni(B);
    for (int j = 0; j < n; j++) for (int i = 0; i < A.m; i++) A.set(i, j, 0);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i - j <= kl && j - i <= ku) A.set(kl + ku + i - j, j, a(i, j));
    for (int i = 0; i < n; i++) P.p[i] = i + 1;
    c.call([&] { return what == 0 ? API<T>::gbtrf(n, n, kl, ku, A.p, A.ld, P.p) : API<T>::gbsv(n, kl, ku, 3, A.p, A.ld, P.p, B.p, B.ld); }, "call");
    std::vector<int> also; if (kl == 0 && ku == 0) { if (how == TWO) also.push_back(n); if (how == ALL) for (int i = p; i < n; i++) also.push_back(i + 1); }
    expect(c, "the call", p + 1, also); untouched(c, B);
}
template<class T> void s_tri(Cx &c, int what, int u, int n, int p, int how) {   // 0 trtri 1 potri 2 getri: the reported row is one of the singular ones
    if (what == 2) u = PlasmaUpper;
    Mat l = chol_factor<T>(c, n); if (u == PlasmaUpper) l = ct(l); l(p, p) = 0; if (how == TWO) l(n - 1, n - 1) = 0; if (how == ALL) for (int i = p; i < n; i++) l(i, i) = 0;
    auto A = c.out<T>("A", n, n, 1); auto P = c.ints("ipiv", n, false); for (int i = 0; i < n; i++) P.p[i] = i + 1;
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.set(i, j, what == 2 && i > j ? Z(0.5) : l(i, j));
    c.call([&] { return what == 0 ? API<T>::trtri(u, PlasmaNonUnit, n, A.p, A.ld) : what == 1 ? API<T>::potri(u, n, A.p, A.ld) : API<T>::getri(n, A.p, A.ld, P.p); }, "call");
    if (c.oom || (c.mode == M_FAULT && c.rc == PlasmaErrorOutOfMemory)) { c.oom = true; return; }
    if (c.rc < 1 || c.rc > n || l(c.rc - 1, c.rc - 1) != Z(0)) c.badf(RC, "the call returned %d, which is not a singular row", c.rc);
}
template<class T> void s_aasen(Cx &c, bool one, int n, int p, int how) {
    int nb = c.env.nb; auto A = c.out<T>("A", n, n, 1); auto P = c.ints("ipiv", n, true), P2 = c.ints("ipiv2", n, true); auto W = c.out<T>("T", band_rows(nb, nb, nb), n, 0); auto B = c.out<T>("B", n, 3, 1); c.fill_uni(B);
    Mat a(n, n); for (int j = 0; j < n; j++) for (int i = j; i < n; i++) { Z v = c.uval<T>(); if (i == j) v = v.real() + 2; if (i == p || j == p || how == ALL || (how == TWO && (i == n - 1 || j == n - 1))) v = 0; a(i, j) = v; }
    for (int j = 0; j < n; j++) { for (int i = 0; i < n; i++) A.set(i, j, a(i, j)); for (int i = 0; i < W.m; i++) W.set(i, j, 0); }
    c.call([&] { return one ? API<T>::hesv(PlasmaLower, n, 3, A.p, A.ld, P.p, W.p, W.ld, P2.p, B.p, B.ld) : API<T>::hetrf(PlasmaLower, n, A.p, A.ld, P.p, W.p, W.ld, P2.p); }, "call");
    if (c.oom || (c.mode == M_FAULT && c.rc == PlasmaErrorOutOfMemory)) { c.oom = true; return; }
    if (c.rc < 1 || c.rc > n) c.badf(RC, "the call returned %d for a singular matrix of order %d", c.rc, n);
    if (one) untouched(c, B);
}
template<class T> void s_mixed(Cx &c, int what, int u, int n, int p, int how) {   // 0 gesv 1 posv 2 gbsv
    int kl = std::min(2, n - 1), ku = std::min(1, n - 1); Mat a = what == 1 ? notpd<T>(c, n, p, how, n) : what == 0 ? singular<T>(c, n, n, p, how) : gen_band<T>(c, n, n, kl, ku, 0);
    if (what == 2) for (int i = 0; i < n; i++) { a(i, p) = 0; if (how != ZERO) a(i, n - 1) = 0; }
    int rows = what == 2 ? band_rows(kl, ku, c.env.nb) : n;
    auto A = c.out<T>("A", rows, n, what == 2 ? 0 : 1); auto P = c.ints("ipiv", n, true); auto B = c.in<T>("B", n, 3, 1); auto X = c.out<T>("X", n, 3, 2); auto It = c.ints("iter", 1, true); c.fill_uni(B); c.fill_uni(X);
    for (int j = 0; j < n; j++) for (int i = 0; i < rows; i++) A.set(i, j, what == 2 ? Z(0) : a(i, j));
    if (what == 2) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i - j <= kl && j - i <= ku) A.set(kl + ku + i - j, j, a(i, j));
    for (int i = 0; i < n; i++) P.p[i] = i + 1; It.p[0] = 0;
    c.call([&]() -> int {
        if constexpr (Tr<T>::cx) return what == 0 ? plasma_zcgesv(n, 3, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 1 ? plasma_zcposv(u, n, 3, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_zcgbsv(n, kl, ku, 3, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p);
        else return what == 0 ? plasma_dsgesv(n, 3, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 1 ? plasma_dsposv(u, n, 3, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_dsgbsv(n, kl, ku, 3, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p); }, "call");
    expect(c, "the call", p + 1);
}
template<class T> void en(Sink &S) {
    char t = Tr<T>::p; bool full = t == 'z' || t == 'd'; bool sched = S.grid != G_NUM;
    std::vector<int> sz = sched ? std::vector<int>{3, 5} : full ? rng(1, 7) : std::vector<int>{2, 5}, nbs = sched || !full ? std::vector<int>{2} : std::vector<int>{1, 2, 3}, npts = {1, 2}; std::vector<int> hows = {ZERO, NEG, TWO, ALL};
    if (S.tier) { sz = sched ? std::vector<int>{2, 3, 4, 5, 6, 7} : rng(1, 9); nbs = sched ? std::vector<int>{2, 3} : std::vector<int>{1, 2, 3, 4}; npts = {1, 2, 3}; }
    const char *cn[] = {"potrf", "posv", "poinv", "pbtrf", "pbsv"}, *ln[] = {"getrf", "gesv", "geinv"}, *tn[] = {"trtri", "potri", "getri"}, *mn[] = {"gesv", "posv", "gbsv"};
    for (int nb : nbs) for (int ib : {1, 2}) for (int pt : npts) { if (ib > nb) continue; Env e; e.nb = nb; e.ib = ib; e.npt = pt;
    for (int n : sz) for (int p = 0; p < n; p++) for (int h : hows) {
        if (h == TWO && p == n - 1) continue;
        if (pt == 1 && ib == 1) {
            for (int u : UPLOS) {
                for (int w = 0; w < 5; w++) for (int kd : {0, 1, 3}) { if (w < 3 && kd) continue; if (kd >= n && kd) continue; ADD(S, e, ([=](Cx &c) { s_potrf<T>(c, w, u, n, p, h, kd); }), "%c%s %c n%d at%d %s kd%d", t, cn[w], uc(u), n, p + 1, hs[h], kd); }
                if (h != NEG) for (int w = 0; w < 3; w++) if (w < 2 || u == PlasmaUpper) ADD(S, e, ([=](Cx &c) { s_tri<T>(c, w, u, n, p, h); }), "%c%s %c n%d at%d %s", t, tn[w], uc(u), n, p + 1, hs[h]);
            }
        }
        for (int w = 0; w < 3; w++) for (int m : {n - 2, n, n + 3}) { if (m <= 0 || p >= m || (w && m != n)) continue; if (h == TWO && p == std::min(m, n) - 1) continue; ADD(S, e, ([=](Cx &c) { s_getrf<T>(c, w, m, n, p, h); }), "%c%s m%d n%d at%d %s", t, ln[w], m, n, p + 1, hs[h]); }
        if (h != NEG) for (int w = 0; w < 2; w++) for (int kl : {0, 2, 3}) for (int ku : {0, 1}) if ((kl < n || !kl) && ku < n) ADD(S, e, ([=](Cx &c) { s_gb<T>(c, w, n, kl, ku, p, h); }), "%cgb%s n%d kl%d ku%d at%d %s", t, w ? "sv" : "trf", n, kl, ku, p + 1, hs[h]);
        if (h != NEG && ib == 1) for (int w = 0; w < 2; w++) ADD(S, e, ([=](Cx &c) { s_aasen<T>(c, w, n, p, h); }), "%c%s%s n%d at%d %s", t, Tr<T>::cx ? "he" : "sy", w ? "sv" : "trf", n, p + 1, hs[h]);
        if (full && ib == 1) for (int w = 0; w < 3; w++) { if (w == 2 && (h == NEG || h == ALL)) continue; if constexpr (sizeof(typename Tr<T>::R) == 8) ADD(S, e, ([=](Cx &c) { s_mixed<T>(c, w, PlasmaLower, n, p, h); }), "%s%s n%d at%d %s", t == 'd' ? "ds" : "zc", mn[w], n, p + 1, hs[h]); }
    } }
}
}
void enum_sing(Sink &S) { S.fam = "singular"; en<s_t>(S); en<d_t>(S); en<c_t>(S); en<z_t>(S); }
