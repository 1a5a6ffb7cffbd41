// Factorizations, solvers and inverses: Cholesky, LU and QR/LQ families.
#include "h.h"
#include "dat.h"
namespace {
// ---------------------------------------------------------------- Cholesky
template<class T> void put_tri(Arr<T> A, const Mat &a, int uplo, bool nanrest = true) {
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) if (uplo == PlasmaLower ? i >= j : i <= j) A.set(i, j, a(i, j)); else if (nanrest) A.set(i, j, Z(NAN, Tr<T>::cx ? NAN : 0));
}
template<class T> Mat fac_of(const Mat &f, int uplo) { Mat t = trian(f, uplo, false); return uplo == PlasmaLower ? t * ct(t) : ct(t) * t; }
template<class T> void chk_chol(Cx &c, const char *nm, const Mat &f, int uplo, const Mat &a) {
    Mat t = trian(f, uplo, false);
    for (int i = 0; i < a.n; i++) if (!(t(i, i).real() > 0)) { c.badf(NUM, "%s: diagonal element %d of the factor is %g", nm, i, t(i, i).real()); return; }
    c.near_(nm, fac_of<T>(f, uplo), a, Tr<T>::tol(), a.maxabs() * (1 + a.n));
}
template<class T> void potrf(Cx &c, int u, int n, int kind, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat a = hpd<T>(c, n, kind); put_tri(A, a, u);
    c.call([&] { return API<T>::potrf(u, n, A.p, A.ld); }, "potrf"); if (!c.ok()) return;
    chk_chol<T>(c, "L*L^H", A.get(), u, a); c.same("A", A, [&](int i, int j) { return u == PlasmaLower ? i < j : i > j; });
}
template<class T> void potrs(Cx &c, int u, int n, int nrhs, int pad) {
    auto A = c.in<T>("A", n, n, pad); auto B = c.out<T>("B", n, nrhs, 2 * pad);
    Mat l = chol_factor<T>(c, n); put_tri(A, u == PlasmaLower ? l : ct(l), u); c.fill_uni(B); Mat b = B.get(), a = l * ct(l);
    c.call([&] { return API<T>::potrs(u, n, nrhs, A.p, A.ld, B.p, B.ld); }, "potrs"); if (!c.ok()) return;
    resid<T>(c, "A*X", a, B.get(), b);
}
template<class T> void posv(Cx &c, int u, int n, int nrhs, int kind, int pad) {
    auto A = c.out<T>("A", n, n, pad); auto B = c.out<T>("B", n, nrhs, 2 * pad);
    Mat a = hpd<T>(c, n, kind); put_tri(A, a, u); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::posv(u, n, nrhs, A.p, A.ld, B.p, B.ld); }, "posv"); if (!c.ok()) return;
    resid<T>(c, "A*X", a, B.get(), b); if (nrhs) chk_chol<T>(c, "L*L^H", A.get(), u, a);
    c.same("A", A, [&](int i, int j) { return u == PlasmaLower ? i < j : i > j; });
}
template<class T> void lauum(Cx &c, int u, int n, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat l = chol_factor<T>(c, n); if (u == PlasmaUpper) l = ct(l); put_tri(A, l, u);
    c.call([&] { return API<T>::lauum(u, n, A.p, A.ld); }, "lauum"); if (!c.ok()) return;
    Mat r = u == PlasmaLower ? ct(l) * l : l * ct(l), g = herm(A.get(), u, true), d = A.get();
    if (c.near_("product", g, r, Tr<T>::tol() * 10)) for (int i = 0; i < n; i++) if (std::abs(d(i, i).imag()) > Tr<T>::tol() * 10 * (1 + r.maxabs())) c.badf(NUM, "diagonal element %d is not real", i);
    c.same("A", A, [&](int i, int j) { return u == PlasmaLower ? i < j : i > j; });
}
template<class T> void trtri(Cx &c, int u, int d, int n, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat l = chol_factor<T>(c, n); if (Tr<T>::cx) for (int i = 0; i < n; i++) l(i, i) = up(mk<T>(Z(l(i, i).real(), 0.5))); if (u == PlasmaUpper) l = tr(l); put_tri(A, l, u);
    if (d == PlasmaUnit) for (int i = 0; i < n; i++) { A.set(i, i, Z(NAN, NAN)); l(i, i) = 1; }
    c.call([&] { return API<T>::trtri(u, d, n, A.p, A.ld); }, "trtri"); if (!c.ok()) return;
    Mat x = trian(A.get(), u, d == PlasmaUnit); c.near_("A*inv(A)", l * x, eye(n, n), Tr<T>::tol(), (1 + l.maxabs()) * (1 + x.maxabs()) * n);
    c.same("A", A, [&](int i, int j) { return (u == PlasmaLower ? i < j : i > j) || (d == PlasmaUnit && i == j); });
}
template<class T> void potri(Cx &c, bool full, int u, int n, int kind, int pad) {
    auto A = c.out<T>("A", n, n, pad); Mat a;
    if (full) { a = hpd<T>(c, n, kind); put_tri(A, a, u); } else { Mat l = chol_factor<T>(c, n); a = l * ct(l); put_tri(A, u == PlasmaLower ? l : ct(l), u); }
    c.call([&] { return full ? API<T>::poinv(u, n, A.p, A.ld) : API<T>::potri(u, n, A.p, A.ld); }, full ? "poinv" : "potri"); if (!c.ok()) return;
    Mat x = herm(A.get(), u, true); c.near_("A*inv(A)", a * x, eye(n, n), Tr<T>::tol(), (1 + a.maxabs()) * (1 + x.maxabs()) * n * 10);
    c.same("A", A, [&](int i, int j) { return u == PlasmaLower ? i < j : i > j; });
}
template<class T> void pb_put(Arr<T> AB, const Mat &a, int u, int kd) {
    int n = AB.n;
    for (int j = 0; j < n; j++) for (int r = 0; r <= kd; r++) { int i = u == PlasmaLower ? j + r : j - kd + r; AB.set(r, j, i < 0 || i >= n ? Z(NAN, Tr<T>::cx ? NAN : 0) : a(i, j)); }
}
template<class T> Mat pb_get(Arr<T> AB, int u, int kd) {
    int n = AB.n; Mat a(n, n);
    for (int j = 0; j < n; j++) for (int r = 0; r <= kd; r++) { int i = u == PlasmaLower ? j + r : j - kd + r; if (i >= 0 && i < n) a(i, j) = AB.at(r, j); }
    return a;
}
template<class T> bool pb_out(Cx &c, Arr<T> AB, int u, int kd) { int n = AB.n; return c.same("AB", AB, [=](int r, int j) { int i = u == PlasmaLower ? j + r : j - kd + r; return i < 0 || i >= n; }); }
template<class T> void pbtrf(Cx &c, int u, int n, int kd, int pad) {
    auto A = c.out<T>("AB", kd + 1, n, pad); Mat a = hpd_band<T>(c, n, kd); pb_put(A, a, u, kd);
    c.call([&] { return API<T>::pbtrf(u, n, kd, A.p, A.ld); }, "pbtrf"); if (!c.ok()) return;
    chk_chol<T>(c, "L*L^H", pb_get(A, u, kd), u, a); pb_out(c, A, u, kd);
}
template<class T> void pbtrs(Cx &c, int u, int n, int kd, int nrhs, int pad) {
    auto A = c.in<T>("AB", kd + 1, n, pad); auto B = c.out<T>("B", n, nrhs, 2 * pad);
    Mat l = chol_factor<T>(c, n, kd); pb_put(A, u == PlasmaLower ? l : ct(l), u, kd); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::pbtrs(u, n, kd, nrhs, A.p, A.ld, B.p, B.ld); }, "pbtrs"); if (!c.ok()) return;
    resid<T>(c, "A*X", l * ct(l), B.get(), b);
}
template<class T> void pbsv(Cx &c, int u, int n, int kd, int nrhs, int pad) {
    auto A = c.out<T>("AB", kd + 1, n, pad); auto B = c.out<T>("B", n, nrhs, 2 * pad);
    Mat a = hpd_band<T>(c, n, kd); pb_put(A, a, u, kd); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::pbsv(u, n, kd, nrhs, A.p, A.ld, B.p, B.ld); }, "pbsv"); if (!c.ok()) return;
    resid<T>(c, "A*X", a, B.get(), b); if (nrhs) chk_chol<T>(c, "L*L^H", pb_get(A, u, kd), u, a); pb_out(c, A, u, kd);
}
template<class T> void en_chol(Sink &S, bool full) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST;
    std::vector<int> sz, nbs, pads = {0, 2}, rhs = {1, 3}; int kinds = 1;
    if (num) { sz = full ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{1, 2, 4, 5, 7}; nbs = full ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{2}; rhs = {0, 1, 2, 3, 5}; kinds = 3; if (S.tier) { sz = rng(0, 13); nbs = {1, 2, 3, 4, 5, 6}; rhs = {0, 1, 2, 3, 4, 5, 6, 7}; } }
    else if (S.grid == G_SCHED) { sz = full ? std::vector<int>{2, 4, 5, 7, 8} : std::vector<int>{5, 7}; nbs = {2}; pads = {0}; if (S.tier) { sz = rng(1, 10); nbs = {2, 3}; } }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{0, 1, 2, 3, 5, 7} : std::vector<int>{1, 3, 5}; nbs = {2, 3}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; pads = {1}; rhs = {3}; }
    else { sz = {5}; nbs = {2}; pads = {1}; rhs = {3}; }
    if (deep) { sz = {13, 33}; nbs = {1, 2, 16}; pads = {1}; rhs = {3, 20}; kinds = 1; if (S.tier) { sz = {13, 21, 33, 50}; nbs = {1, 2, 3, 7, 16}; } }
    if (big) { sz = {300}; nbs = {256}; rhs = {20, 270}; if (S.tier) { sz = {250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) { Env e; e.nb = nb; e.ib = big ? big_ib(nb) : 1;
    for (int n : sz) for (int pad : pads) for (int u : UPLOS) {
        if (deep && n / nb > 33) continue;
        if (small && u == PlasmaUpper && p != 'd') continue;
        for (int k = 0; k < kinds; k++) {
            ADD(S, e, ([=](Cx &c) { potrf<T>(c, u, n, k, pad); }), "%cpotrf %c n%d v%d p%d", p, uc(u), n, k, pad);
            ADD(S, e, ([=](Cx &c) { potri<T>(c, true, u, n, k, pad); }), "%cpoinv %c n%d v%d p%d", p, uc(u), n, k, pad);
            for (int r : rhs) ADD(S, e, ([=](Cx &c) { posv<T>(c, u, n, r, k, pad); }), "%cposv %c n%d r%d v%d p%d", p, uc(u), n, r, k, pad);
        }
        for (int r : rhs) ADD(S, e, ([=](Cx &c) { potrs<T>(c, u, n, r, pad); }), "%cpotrs %c n%d r%d p%d", p, uc(u), n, r, pad);
        ADD(S, e, ([=](Cx &c) { lauum<T>(c, u, n, pad); }), "%clauum %c n%d p%d", p, uc(u), n, pad);
        ADD(S, e, ([=](Cx &c) { potri<T>(c, false, u, n, 0, pad); }), "%cpotri %c n%d p%d", p, uc(u), n, pad);
        for (int d : DIAGS) ADD(S, e, ([=](Cx &c) { trtri<T>(c, u, d, n, pad); }), "%ctrtri %c%c n%d p%d", p, uc(u), d == PlasmaUnit ? 'U' : 'N', n, pad);
        for (int kd = 0; kd <= std::max(0, n - 1); kd++) {
            if (deep && kd > 1 && kd != 7 && kd != 17 && kd != n - 1 && (!big || kd != 260)) continue;
            if (!num && !S.tier && kd > 1 && kd != 3 && kd != n - 1) continue;
            if (small && kd != 2) { if (kd != 3) continue; }
            ADD(S, e, ([=](Cx &c) { pbtrf<T>(c, u, n, kd, pad); }), "%cpbtrf %c n%d kd%d p%d", p, uc(u), n, kd, pad);
            for (int r : rhs) {
                ADD(S, e, ([=](Cx &c) { pbtrs<T>(c, u, n, kd, r, pad); }), "%cpbtrs %c n%d kd%d r%d p%d", p, uc(u), n, kd, r, pad);
                ADD(S, e, ([=](Cx &c) { pbsv<T>(c, u, n, kd, r, pad); }), "%cpbsv %c n%d kd%d r%d p%d", p, uc(u), n, kd, r, pad);
            }
        }
    } }
}
// ---------------------------------------------------------------- LU
template<class T> void chk_lu(Cx &c, const Mat &f, const int *ipiv, const Mat &a) {
    int m = a.m, n = a.n, k = std::min(m, n);
    for (int i = 0; i < k; i++) if (ipiv[i] < i + 1 || ipiv[i] > m) { c.badf(NUM, "pivot %d is %d", i, ipiv[i]); return; }
    Mat l = trian(sub(f, 0, 0, m, k), PlasmaLower, true), u = trian(sub(f, 0, 0, k, n), PlasmaUpper, false), pa = a;
    for (int j = 0; j < k; j++) for (int i = j + 1; i < m; i++) if (!(std::abs(l(i, j)) <= (Tr<T>::cx ? 1.4143 : 1.0001))) { c.badf(NUM, "L(%d,%d) has magnitude %g: not partial pivoting", i, j, std::abs(l(i, j))); return; }
    for (int i = 0; i < k; i++) if (ipiv[i] != i + 1) for (int j = 0; j < n; j++) std::swap(pa(i, j), pa(ipiv[i] - 1, j));
    c.near_("P*A", l * u, pa, Tr<T>::tol(), (1 + a.maxabs()) * (1 + u.maxabs()) * (1 + k));
}
template<class T> void getrf(Cx &c, int m, int n, int kind, int pad) {
    auto A = c.out<T>("A", m, n, pad); auto P = c.ints("ipiv", std::min(m, n), true);
    Mat a = gen<T>(c, m, n, kind); A.put(a); for (int i = 0; i < P.m; i++) P.p[i] = -7;
    c.call([&] { return API<T>::getrf(m, n, A.p, A.ld, P.p); }, "getrf"); if (!c.ok()) return;
    chk_lu<T>(c, A.get(), P.p, a);
}
template<class T> void getrs(Cx &c, int t, int n, int r, int pad) {
    auto A = c.in<T>("A", n, n, pad); auto P = c.ints("ipiv", n, false); auto B = c.out<T>("B", n, r, 2 * pad);
    Mat lu = lu_factors<T>(c, n, P.p), a = lu_product(lu, P.p); A.put(lu); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::getrs(t, n, r, A.p, A.ld, P.p, B.p, B.ld); }, "getrs"); if (!c.ok()) return;
    resid<T>(c, "op(A)*X", op(a, t), B.get(), b);
}
template<class T> void gesv(Cx &c, int n, int r, int kind, int pad) {
    auto A = c.out<T>("A", n, n, pad); auto P = c.ints("ipiv", n, true); auto B = c.out<T>("B", n, r, 2 * pad);
    Mat a = gen<T>(c, n, n, kind); A.put(a); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::gesv(n, r, A.p, A.ld, P.p, B.p, B.ld); }, "gesv"); if (!c.ok()) return;
    resid<T>(c, "A*X", a, B.get(), b); if (r) chk_lu<T>(c, A.get(), P.p, a);
}
template<class T> void inv_(Cx &c, int what, int n, int kind, int pad) {   // 0 getri, 1 geinv, 2 getri_aux
    auto A = c.out<T>("A", n, n, pad); auto P = c.ints("ipiv", n, what == 1);
    Mat a;
    if (what == 1) { a = gen<T>(c, n, n, kind); A.put(a); }
    else if (what == 0) { Mat lu = lu_factors<T>(c, n, P.p); a = lu_product(lu, P.p); A.put(lu); }
    else { std::vector<int> id(n + 1); for (int i = 0; i < n; i++) id[i] = P.p[i] = i + 1;
        Mat lu = lu_factors<T>(c, n, P.p); Mat l = trian(lu, PlasmaLower, true), u = trian(lu, PlasmaUpper, false); a = l * u;
        Mat ui = gs_inverse(u); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.set(i, j, i <= j ? ui(i, j) : lu(i, j)); for (int i = 0; i < n; i++) P.p[i] = i + 1; }
    c.call([&] { return what == 1 ? API<T>::geinv(n, n, A.p, A.ld, P.p) : what == 0 ? API<T>::getri(n, A.p, A.ld, P.p) : API<T>::getri_aux(n, A.p, A.ld); }, what == 1 ? "geinv" : what == 0 ? "getri" : "getri_aux"); if (!c.ok()) return;
    Mat x = A.get(); c.near_("A*inv(A)", a * x, eye(n, n), Tr<T>::tol(), (1 + a.maxabs()) * (1 + x.maxabs()) * n * 10);
}
template<class T> void gb_put(Arr<T> AB, const Mat &a, int kl, int ku) {
    for (int j = 0; j < AB.n; j++) for (int i = 0; i < AB.m; i++) AB.set(i, j, 0);
    for (int j = 0; j < a.n; j++) for (int i = 0; i < a.m; i++) if (i - j <= kl && j - i <= ku) AB.set(kl + ku + i - j, j, a(i, j));
}
// factor with gbtrf, then solve with gbtrs for every transposition
template<class T> void gbtrf(Cx &c, int n, int kl, int ku, int r, int t, int kind, int pad) {
    auto A = c.out<T>("AB", band_rows(kl, ku, c.env.nb) + pad, n, c.env.huge); auto P = c.ints("ipiv", n, true); auto B = c.out<T>("B", n, r, pad);
    Mat a = gen_band<T>(c, n, n, kl, ku, kind); gb_put(A, a, kl, ku); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::gbtrf(n, n, kl, ku, A.p, A.ld, P.p); }, "gbtrf"); if (!c.ok()) return;
    for (int i = 0; i < n; i++) if (P.p[i] < i + 1 || P.p[i] > std::min(n, i + 1 + kl + c.env.nb)) { c.badf(NUM, "pivot %d is %d", i, P.p[i]); return; }
    c.call([&] { return API<T>::gbtrs(t, n, kl, ku, r, A.p, A.ld, P.p, B.p, B.ld); }, "gbtrs"); if (!c.ok()) return;
    resid<T>(c, "op(A)*X", op(a, t), B.get(), b, growth<T>(A.get(), a));
}
template<class T> void gbsv(Cx &c, int n, int kl, int ku, int r, int kind, int pad) {
    auto A = c.out<T>("AB", band_rows(kl, ku, c.env.nb) + pad, n, c.env.huge); auto P = c.ints("ipiv", n, true); auto B = c.out<T>("B", n, r, pad);
    Mat a = gen_band<T>(c, n, n, kl, ku, kind); gb_put(A, a, kl, ku); c.fill_uni(B); Mat b = B.get();
    c.call([&] { return API<T>::gbsv(n, kl, ku, r, A.p, A.ld, P.p, B.p, B.ld); }, "gbsv"); if (!c.ok()) return;
    resid<T>(c, "A*X", a, B.get(), b, growth<T>(A.get(), a));
}
template<class T> void gbtrf_rect(Cx &c, int m, int n, int kl, int ku, int pad) {
    auto A = c.out<T>("AB", band_rows(kl, ku, c.env.nb) + pad, n, c.env.huge); auto P = c.ints("ipiv", std::min(m, n), true);
    Mat a = gen_band<T>(c, m, n, kl, ku, 0); gb_put(A, a, kl, ku);
    c.call([&] { return API<T>::gbtrf(m, n, kl, ku, A.p, A.ld, P.p); }, "gbtrf"); if (!c.ok()) return;
    // U from the band; L is determined by the permuted matrix: P*A = L*U must have a solution with unit lower trapezoidal L
    int k = std::min(m, n); Mat u(k, n);
    for (int i = 0; i < k; i++) if (P.p[i] < i + 1 || P.p[i] > m) { c.badf(NUM, "pivot %d is %d", i, P.p[i]); return; }
    for (int j = 0; j < n; j++) for (int i = 0; i <= std::min(j, k - 1); i++) if (j - i <= kl + ku) u(i, j) = A.at(kl + ku + i - j, j);
    Mat pa = a; for (int i = 0; i < k; i++) if (P.p[i] != i + 1) for (int j = 0; j < n; j++) std::swap(pa(i, j), pa(P.p[i] - 1, j));
    Mat l = sub(pa, 0, 0, m, k);
    for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) { Z s = l(i, j); for (int q = 0; q < j; q++) s -= l(i, q) * u(q, j); l(i, j) = s / u(j, j); }
    for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) { double w = std::abs(l(i, j) - (i == j ? Z(1) : Z(0))); if (i > j ? !(std::abs(l(i, j)) < 1.5) : !(w < Tr<T>::tol() * 100)) { c.badf(NUM, "P*A*inv(U) is not unit lower trapezoidal at (%d,%d): %g", i, j, std::abs(l(i, j))); return; } }
    c.near_("P*A", l * u, pa, Tr<T>::tol() * 10, 1 + u.maxabs() * k);
}
template<class T> void en_lu(Sink &S, bool full) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST; auto TT = transes<T>();
    std::vector<int> sz, nbs, ibs = {2}, pads = {0, 2}, rhs = {1, 3}, npts = {1}; int kinds = 2;
    if (num) { sz = full ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8} : std::vector<int>{1, 2, 4, 5, 7}; nbs = full ? std::vector<int>{1, 2, 3, 4} : std::vector<int>{2}; ibs = {1, 2}; rhs = {0, 1, 2, 3, 5}; kinds = 6; npts = {1, 2}; if (S.tier) { sz = rng(0, 12); nbs = {1, 2, 3, 4, 5}; ibs = {1, 2, 3}; npts = {1, 2, 3}; } }
    else if (S.grid == G_SCHED) { sz = full ? std::vector<int>{2, 4, 5, 7} : std::vector<int>{5}; nbs = {2, 4}; ibs = {2, 1}; pads = {0}; rhs = {3}; npts = {1, 2}; if (S.tier) { sz = rng(1, 8); nbs = {2, 3, 4}; npts = {1, 2, 3}; } }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{0, 1, 2, 3, 5, 7} : std::vector<int>{1, 3, 5}; nbs = {2, 3}; pads = {0, 3}; kinds = 4; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; ibs = {1, 2, 3, 7, 20}; pads = {1}; rhs = {3}; npts = {1, 2, 3}; kinds = 2; }
    else { sz = {5}; nbs = {2}; pads = {1}; rhs = {3}; kinds = 1; npts = {1, 2}; }
    if (deep) { sz = {13, 33}; nbs = {1, 2, 16}; ibs = {1, 5}; npts = {1, 4}; pads = {1}; rhs = {3, 20}; kinds = 1; if (S.tier) { sz = {5, 13, 21, 33, 50}; nbs = {1, 2, 3, 7, 16}; npts = {1, 3, 5, 8}; } }
    if (big) { sz = {300}; nbs = {256}; ibs = {0}; npts = {1, 3}; rhs = {20, 270}; if (S.tier) { sz = {250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) for (int ib : ibs) for (int pt : npts) { if (big) ib = big_ib(nb); if (ib > nb || (S.grid == G_SCHED && pt == 1 && (ib == 1 || nb == 4))) continue; Env e; e.nb = nb; e.ib = ib; e.npt = pt;
    for (int m : S.grid == G_SCHED && nb == 4 ? std::vector<int>{9} : sz) for (int pad : pads) {
        int n = m; if (deep && n / nb > 33) continue;
        for (int k = 0; k < kinds; k++) {
            for (int n2 : sz) { if (small && n2 != m) continue; ADD(S, e, ([=](Cx &c) { getrf<T>(c, m, n2, k, pad); }), "%cgetrf m%d n%d v%d p%d", p, m, n2, k, pad); }
            for (int r : rhs) ADD(S, e, ([=](Cx &c) { gesv<T>(c, n, r, k, pad); }), "%cgesv n%d r%d v%d p%d", p, n, r, k, pad);
            ADD(S, e, ([=](Cx &c) { inv_<T>(c, 1, n, k, pad); }), "%cgeinv n%d v%d p%d", p, n, k, pad);
        }
        if (pt == 1) {
            for (int r : rhs) for (int t : TT) ADD(S, e, ([=](Cx &c) { getrs<T>(c, t, n, r, pad); }), "%cgetrs %c n%d r%d p%d", p, tc(t), n, r, pad);
            ADD(S, e, ([=](Cx &c) { inv_<T>(c, 0, n, 0, pad); }), "%cgetri n%d p%d", p, n, pad);
            ADD(S, e, ([=](Cx &c) { inv_<T>(c, 2, n, 0, pad); }), "%cgetri_aux n%d p%d", p, n, pad);
        }
        if (big || ib == ibs.back() || S.grid == G_TUNE || S.grid == G_SCHED) for (int kl = 0; kl <= std::max(0, n - 1); kl++) for (int ku = 0; ku <= std::max(0, n - 1); ku++) {
            if (deep && ((kl != 0 && kl != 3 && kl != 17 && kl != n - 1) || (ku != 0 && ku != 2 && ku != n - 1) || n / nb > 20 || (big && (kl == n - 1) != (ku == n - 1)))) continue;
            if (!deep && !S.tier && ((kl > 2 && kl != n - 1) || (ku > 1 && ku != 3))) continue;
            if ((S.grid == G_TUNE || small) && (kl != 2 || ku != 1)) continue;
            for (int k = 0; k < std::min(kinds, 3); k++) for (int r : rhs) {
                if (num && !S.tier && (k + r) % 3 && r) continue;
                ADD(S, e, ([=](Cx &c) { gbsv<T>(c, n, kl, ku, r, k, pad); }), "%cgbsv n%d kl%d ku%d r%d v%d p%d", p, n, kl, ku, r, k, pad);
                for (int t : TT) ADD(S, e, ([=](Cx &c) { gbtrf<T>(c, n, kl, ku, r, t, k, pad); }), "%cgbtrf+gbtrs %c n%d kl%d ku%d r%d v%d p%d", p, tc(t), n, kl, ku, r, k, pad);
            }
            if (!small) for (int m2 : {n - 2, n + 1, n + 3}) if (m2 > 0 && n > 0 && kl < m2) ADD(S, e, ([=](Cx &c) { gbtrf_rect<T>(c, m2, n, kl, ku, pad); }), "%cgbtrf m%d n%d kl%d ku%d p%d", p, m2, n, kl, ku, pad);
        }
    } }
}
// ---------------------------------------------------------------- QR / LQ
struct TD { plasma_desc_t d; TD() { memset(&d, 0, sizeof d); } ~TD() { if (d.matrix) plasma_desc_destroy(&d); } };
// 0 geqrf+ungqr, 1 gelqf+unglq
template<class T> bool factor(Cx &c, bool lq, Arr<T> A, TD &t) {
    c.call([&] { return lq ? API<T>::gelqf(A.m, A.n, A.p, A.ld, &t.d) : API<T>::geqrf(A.m, A.n, A.p, A.ld, &t.d); }, lq ? "gelqf" : "geqrf"); if (!c.ok()) return false;
    return true;
}
// special entries: 1 all zero, 2 nothing to annihilate, 3 only the first tile row (column) non-zero, 4 rank one, 5 zero leading tile, 6 every other column zero
template<class T> void qkind(Arr<T> A, int kind, bool lq) {
    int nb = 0; plasma_get(PlasmaNb, &nb);
    for (int j = 0; j < A.n; j++) for (int i = 0; i < A.m; i++) { int r = lq ? j : i, q = lq ? i : j;
        if (kind == 1 || (kind == 2 && r > q) || (kind == 3 && r >= nb) || (kind == 5 && i < nb && j < nb) || (kind == 6 && q % 2)) A.set(i, j, 0);
        if (kind == 4) A.set(i, j, Z((i + 1) * (j % 3 + 1))); }
}
template<class T> void qr(Cx &c, bool lq, int m, int n, int pad, int kind = 0) {
    int k = std::min(m, n);
    auto A = c.out<T>("A", m, n, pad); auto Q = c.out<T>("Q", lq ? k : m, lq ? n : k, 2 * pad); c.fill_uni(A); if (kind) qkind(A, kind, lq); c.fill_nan(Q); Mat a = A.get();
    TD t; if (!factor(c, lq, A, t)) return;
    Mat f = A.get();
    c.call([&] { return lq ? API<T>::unglq(k, n, k, A.p, A.ld, t.d, Q.p, Q.ld) : API<T>::ungqr(m, k, k, A.p, A.ld, t.d, Q.p, Q.ld); }, lq ? "unglq" : "ungqr"); if (!c.ok()) return;
    Mat q = Q.get();
    if (lq) { c.near_("Q*Q^H", q * ct(q), eye(k, k), Tr<T>::tol(), 10); c.near_("L*Q", trian(sub(f, 0, 0, m, k), PlasmaLower, false) * q, a, Tr<T>::tol(), 10 + n); }
    else { c.near_("Q^H*Q", ct(q) * q, eye(k, k), Tr<T>::tol(), 10); c.near_("Q*R", q * trian(sub(f, 0, 0, k, n), PlasmaUpper, false), a, Tr<T>::tol(), 10 + m); }
}
// apply Q to C and compare with the explicit Q
template<class T> void mq(Cx &c, bool lq, int side, int trans, int m, int n, int k, int pad, int kind = 0) {
    int q = side == PlasmaLeft ? m : n;
    auto A = lq ? c.out<T>("A", k, q, pad + q - k) : c.out<T>("A", q, k, pad); auto Q = c.out<T>("Q", q, q, c.env.huge); auto C = c.out<T>("C", m, n, 2 * pad);
    c.fill_uni(A); if (kind) qkind(A, kind, lq); c.fill_uni(C); Mat c0 = C.get();
    TD t; if (!factor(c, lq, A, t)) return;
    c.call([&] { return lq ? API<T>::unglq(q, q, k, A.p, A.ld, t.d, Q.p, Q.ld) : API<T>::ungqr(q, q, k, A.p, A.ld, t.d, Q.p, Q.ld); }, lq ? "unglq" : "ungqr"); if (!c.ok()) return;
    c.call([&] { return lq ? API<T>::unmlq(side, trans, m, n, k, A.p, A.ld, t.d, C.p, C.ld) : API<T>::unmqr(side, trans, m, n, k, A.p, A.ld, t.d, C.p, C.ld); }, lq ? "unmlq" : "unmqr"); if (!c.ok()) return;
    Mat qq = Q.get(); c.near_("Q^H*Q", ct(qq) * qq, eye(q, q), Tr<T>::tol(), 10);
    if (trans != PlasmaNoTrans) qq = ct(qq);
    c.cmp("C", C, side == PlasmaLeft ? qq * c0 : c0 * qq, 10);
}
template<class T> void lsq(Cx &c, const Mat &a, const Mat &x, const Mat &b, bool minnorm) {   // optimality conditions of min ||a x - b||
    Mat r = a * x - b; double s = (1 + a.maxabs()) * (1 + x.maxabs() + b.maxabs()) * (1 + a.m + a.n) * 10;
    if (!minnorm) { c.near_("A^H*(A*X-B)", ct(a) * r, Mat(a.n, x.n), Tr<T>::tol(), s * 10); return; }
    c.near_("A*X", a * x, b, Tr<T>::tol(), s);
    Mat g = a * ct(a), gi = gs_inverse(g); double k = 1 + gi.maxabs(); c.near_("X (minimum norm)", x, ct(a) * (gi * b), Tr<T>::tol(), s * k * k);
}
template<class T> void qrs(Cx &c, bool lq, int m, int n, int r, int pad) {      // m >= n (QR) or n >= m (LQ)
    auto A = c.out<T>("A", m, n, pad); auto B = c.out<T>("B", std::max(m, n), r, pad); wellc<T>(c, A); c.fill_uni(B); Mat a = A.get(), b = sub(B.get(), 0, 0, m, r);
    TD t; if (!factor(c, lq, A, t)) return;
    c.call([&] { return lq ? API<T>::gelqs(m, n, r, A.p, A.ld, t.d, B.p, B.ld) : API<T>::geqrs(m, n, r, A.p, A.ld, t.d, B.p, B.ld); }, lq ? "gelqs" : "geqrs"); if (!c.ok()) return;
    lsq<T>(c, a, sub(B.get(), 0, 0, n, r), b, lq);
}
template<class T> void gels(Cx &c, int trans, int m, int n, int r, int pad) {
    auto A = c.out<T>("A", m, n, pad); auto B = c.out<T>("B", std::max(m, n), r, 2 * pad); wellc<T>(c, A); c.fill_uni(B);
    Mat a = op(A.get(), trans), b = sub(B.get(), 0, 0, a.m, r);
    TD t; c.call([&] { return API<T>::gels(trans, m, n, r, A.p, A.ld, &t.d, B.p, B.ld); }, "gels"); if (!c.ok()) return;
    if (m == 0 || n == 0) { return; }
    lsq<T>(c, a, sub(B.get(), 0, 0, a.n, r), b, a.m < a.n);
}
template<class T> void en_qr(Sink &S, bool full) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST;
    std::vector<int> sz, nbs, ibs = {2}, pads = {0, 2}, rhs = {1, 3};
    if (num) { sz = full ? std::vector<int>{1, 2, 3, 4, 5, 6, 7} : std::vector<int>{1, 2, 4, 5}; nbs = full ? std::vector<int>{1, 2, 3} : std::vector<int>{2}; ibs = {1, 2}; rhs = {1, 2, 5}; if (S.tier) { sz = rng(1, 10); nbs = {1, 2, 3, 4}; ibs = {1, 2, 3}; rhs = {1, 2, 3, 4, 5, 6}; } }
    else if (S.grid == G_SCHED) { sz = full ? std::vector<int>{2, 4, 5, 7} : std::vector<int>{3, 5}; nbs = {2}; pads = {0}; rhs = {3}; if (S.tier) { sz = rng(1, 8); nbs = {2, 3}; } }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{1, 2, 3, 5, 7} : std::vector<int>{1, 3, 5}; nbs = {2, 3}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; ibs = {1, 2, 3, 7, 20}; pads = {1}; rhs = {3}; }
    else { sz = {3, 5}; nbs = {2}; pads = {1}; rhs = {3}; }
    if (deep) { sz = {3, 13, 33}; nbs = {1, 2, 16}; ibs = {1, 5}; pads = {1}; rhs = {3}; if (S.tier) { sz = {2, 5, 13, 21, 33}; nbs = {1, 2, 3, 7, 16}; ibs = {1, 3, 5}; rhs = {3, 20}; } }
    if (big) { sz = {70, 300}; nbs = {256}; ibs = {0}; rhs = {20}; if (S.tier) { sz = {70, 250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) for (int ib : ibs) for (int hh : {(int)PlasmaFlatHouseholder, (int)PlasmaTreeHouseholder}) { if (big) ib = big_ib(nb); if (ib > nb) continue; Env e; e.nb = nb; e.ib = ib; e.hh = hh;
    for (int m : sz) for (int n : sz) for (int pad : pads) {
        if (small && m == n) continue;
        for (int lq = 0; lq < 2; lq++) {
            ADD(S, e, ([=](Cx &c) { qr<T>(c, lq, m, n, pad); }), "%c%s m%d n%d p%d", p, lq ? "gelqf" : "geqrf", m, n, pad);
            if (num && !deep && (S.tier || !pad)) for (int kind = 1; kind <= 6; kind++) ADD(S, e, ([=](Cx &c) { qr<T>(c, lq, m, n, pad, kind); }), "%c%s m%d n%d p%d special%d", p, lq ? "gelqf" : "geqrf", m, n, pad, kind);
            if (num && !pad) for (int s : SIDES) for (int kind = 1; kind <= 3; kind++) ADD(S, e, ([=](Cx &c) { mq<T>(c, lq, s, CT<T>(), m, n, s == PlasmaLeft ? m : n, pad, kind); }), "%c%s %cC m%d n%d special%d", p, lq ? "unmlq" : "unmqr", sc(s), m, n, kind);
            for (int s : SIDES) for (int t : {(int)PlasmaNoTrans, CT<T>()}) { int q = s == PlasmaLeft ? m : n;
                for (int k : sz) { if (k > q || (!num && k != q && k != (q + 1) / 2)) continue; if (num && !S.tier && pad && k != q) continue; if (small && k == q) continue;
                    ADD(S, e, ([=](Cx &c) { mq<T>(c, lq, s, t, m, n, k, pad); }), "%c%s %c%c m%d n%d k%d p%d", p, lq ? "unmlq" : "unmqr", sc(s), tc(t), m, n, k, pad); } }
            for (int r : rhs) if (lq ? n >= m : m >= n) ADD(S, e, ([=](Cx &c) { qrs<T>(c, lq, m, n, r, pad); }), "%c%s m%d n%d r%d p%d", p, lq ? "gelqs" : "geqrs", m, n, r, pad);
        }
        for (int r : rhs) for (int t : {(int)PlasmaNoTrans, CT<T>()}) ADD(S, e, ([=](Cx &c) { gels<T>(c, t, m, n, r, pad); }), "%cgels %c m%d n%d r%d p%d", p, tc(t), m, n, r, pad);
    }
    // empty shapes
    if (num || S.grid == G_MEM || S.grid == G_FAULT) for (int m : {0, 3}) for (int n : {0, 3}) for (int r : {0, 2, 4}) { if (m && n && r) continue;
        for (int t : {(int)PlasmaNoTrans, CT<T>()}) ADD(S, e, ([=](Cx &c) { gels<T>(c, t, m, n, r, 1); }), "%cgels %c m%d n%d r%d", p, tc(t), m, n, r);
        if (r) continue; for (int lq = 0; lq < 2; lq++) ADD(S, e, ([=](Cx &c) { qr<T>(c, lq, m, n, 1); }), "%c%s m%d n%d", p, lq ? "gelqf" : "geqrf", m, n); }
    }
}
}
void enum_chol(Sink &S) { en_chol<d_t>(S, true); en_chol<z_t>(S, true); en_chol<s_t>(S, false); en_chol<c_t>(S, false); }
void enum_lu(Sink &S) { en_lu<d_t>(S, true); en_lu<z_t>(S, true); en_lu<s_t>(S, false); en_lu<c_t>(S, false); }
void enum_qr(Sink &S) { en_qr<d_t>(S, true); en_qr<z_t>(S, true); en_qr<s_t>(S, false); en_qr<c_t>(S, false); }
