// Symmetric indefinite solvers, singular value / eigenvalue routines, mixed-precision solvers.
#include "h.h"
#include "dat.h"
namespace {
// ---------------------------------------------------------------- Aasen
template<class T> Mat indef(Cx &c, int n, int kind) {
    Mat a(n, n);
    for (int j = 0; j < n; j++) for (int i = j; i < n; i++) {
        Z v = c.uval<T>(); if (i == j) { v = v.real(); if (kind == 1) v = 0; if (kind == 2) v = v.real() * 0.01; if (kind == 3) v = (i % 2 ? -3.0 : 3.0) + v.real(); }
        if (kind == 1 && i == n - 1 - j) v += 4.0;           // anti-diagonal: pivots come from the last rows
        if (kind == 2 && i == j + 1) v += 2.0;
        if (i == j) v = v.real();
        a(i, j) = v; a(j, i) = std::conj(v);
    }
    if (kind == 4) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a(i, j) = i == j ? (i % 2 ? -2.0 : 1.0 + i) : 0.0;                  // diagonal
    if (kind == 5) for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) a(i, j) = i / 2 == j / 2 ? (i != j ? 1.0 : i == n - 1 && n % 2 ? 3.0 : 0.0) : 0.0;   // [0 1; 1 0] blocks
    if (kind == 0) for (int i = 0; i < n; i++) a(i, i) += i % 3 == 1 ? -1.5 : 1.5;
    if (kind == 1 && n % 2) a(n / 2, n / 2) = 4.0;
    return rounded<T>(a);
}
static int ldt_for(int nb) { return band_rows(nb, nb, nb); }
template<class T> void hesv(Cx &c, bool one, int n, int r, int kind, int pad) {
    int nb = c.env.nb;
    auto A = c.out<T>("A", n, n, pad); auto P = c.ints("ipiv", n, true), P2 = c.ints("ipiv2", n, true); auto W = c.out<T>("T", ldt_for(nb), n, 0); auto B = c.out<T>("B", n, r, 2 * pad);
    Mat a = indef<T>(c, n, kind);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) A.set(i, j, i >= j ? a(i, j) : Z(NAN, Tr<T>::cx ? NAN : 0));
    for (int j = 0; j < n; j++) for (int i = 0; i < W.m; i++) W.set(i, j, 0);
    c.fill_uni(B); Mat b = B.get();
    if (one) { c.call([&] { return API<T>::hesv(PlasmaLower, n, r, A.p, A.ld, P.p, W.p, W.ld, P2.p, B.p, B.ld); }, "hesv"); if (!c.ok()) return; }
    else {
        c.call([&] { return API<T>::hetrf(PlasmaLower, n, A.p, A.ld, P.p, W.p, W.ld, P2.p); }, "hetrf"); if (!c.ok()) return;
        for (int i = 0; i < n; i++) if (P.p[i] < i + 1 || P.p[i] > n || P2.p[i] < i + 1 || P2.p[i] > n) { c.badf(NUM, "pivots of row %d are %d, %d", i, P.p[i], P2.p[i]); return; }
        c.call([&] { return API<T>::hetrs(PlasmaLower, n, r, A.p, A.ld, P.p, W.p, W.ld, P2.p, B.p, B.ld); }, "hetrs"); if (!c.ok()) return;
    }
    resid<T>(c, "A*X", a, B.get(), b, 100);
    c.same("A", A, [](int i, int j) { return i < j; });
}
template<class T> void en_aasen(Sink &S, bool full) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST;
    std::vector<int> sz, nbs, pads = {0, 2}, rhs = {1, 3}, npts = {1}; int kinds = 2;
    if (num) { sz = full ? rng(0, 9) : std::vector<int>{1, 2, 4, 5, 7}; nbs = full ? std::vector<int>{1, 2, 3} : std::vector<int>{2}; rhs = {0, 1, 3}; kinds = 6; npts = {1, 3}; if (S.tier) { sz = rng(0, 13); nbs = {1, 2, 3, 4, 5}; rhs = {0, 1, 2, 3, 5}; } }
    else if (S.grid == G_SCHED) { sz = full ? std::vector<int>{2, 4, 5, 7} : std::vector<int>{5}; nbs = {2}; pads = {0}; rhs = {3}; npts = {1, 3}; if (S.tier) { sz = rng(1, 9); nbs = {2, 3}; npts = {1, 2, 3, 4}; } }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{0, 1, 2, 3, 5, 7} : std::vector<int>{1, 3, 5}; nbs = {2, 3}; pads = {0, 3}; npts = {1, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; pads = {1}; rhs = {3}; npts = {1, 3, 4}; kinds = 2; }
    else { sz = {5}; nbs = {2}; pads = {1}; rhs = {3}; kinds = 1; }
    if (deep) { sz = {13, 33}; nbs = {1, 2, 16}; npts = {1, 4}; pads = {1}; rhs = {3, 20}; kinds = 2; if (S.tier) { sz = {13, 17, 21, 33}; nbs = {1, 2, 3, 7, 16}; npts = {1, 3, 5, 8}; kinds = 6; } }
    if (big) { sz = {300}; nbs = {256}; npts = {1, 3}; rhs = {20}; kinds = 2; if (S.tier) { sz = {250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) for (int pt : npts) for (int ib : {1, 2}) { if (ib > nb || (S.grid != G_TUNE && !(S.grid == G_SCHED && pt > 1) && ib != std::min(2, nb))) continue; Env e; e.nb = nb; e.ib = big ? big_ib(nb) : ib; e.npt = pt;
        for (int n : sz) for (int pad : pads) for (int k = 0; k < kinds; k++) for (int r : rhs) {
            ADD(S, e, ([=](Cx &c) { hesv<T>(c, true, n, r, k, pad); }), "%c%ssv n%d r%d v%d p%d", p, Tr<T>::cx ? "he" : "sy", n, r, k, pad);
            ADD(S, e, ([=](Cx &c) { hesv<T>(c, false, n, r, k, pad); }), "%c%strf+trs n%d r%d v%d p%d", p, Tr<T>::cx ? "he" : "sy", n, r, k, pad);
        } }
}
// ---------------------------------------------------------------- SVD
template<class T> void gesdd(Cx &c, int job, int m, int n, int kind, int pad) {
    typedef typename Tr<T>::R R; int k = std::min(m, n);
    auto A = c.out<T>("A", m, n, pad); auto Sv = c.out<R>("S", k, 1, 0);
    bool vec = job != PlasmaNoVec; int uc_ = job == PlasmaAllVec ? m : k, vr = job == PlasmaAllVec ? n : k;
    Arr<T> U, V; if (vec) { U = c.out<T>("U", m, uc_, pad); V = c.out<T>("VT", vr, n, pad); c.fill_nan(U); c.fill_nan(V); }
    c.fill_uni(A); c.fill_nan(Sv);
    if (kind == 1) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.set(i, j, i == (j * 2 + 1) % std::max(1, m) ? Z(j + 1.0) : Z(0));
    if (kind == 2) for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) A.set(i, j, Z((i + 1.0) * (j + 1.0)));
    Mat a = A.get(); std::vector<double> s; jacobi_svd(a, s);
    struct TD { plasma_desc_t d; TD() { memset(&d, 0, sizeof d); } ~TD() { if (d.matrix) plasma_desc_destroy(&d); } } t;
    c.call([&] { return API<T>::gesdd(job, job, m, n, A.p, A.ld, &t.d, Sv.p, vec ? U.p : nullptr, vec ? U.ld : 1, vec ? V.p : nullptr, vec ? V.ld : 1); }, "gesdd");
    if (k && k < c.env.nb) { if (!c.oom && c.rc != -12) c.badf(RC, "gesdd returned %d for min(m,n) < nb, expected -12", c.rc); return; }
    if (!c.ok()) return;
    if (!k) return;
    double sc = 1 + (s.empty() ? 0 : s[0]);
    for (int i = 0; i < k; i++) if (!(std::abs(Sv.at(i, 0).real() - s[i]) <= Tr<T>::tol() * 30 * sc)) { c.badf(NUM, "S(%d) = %.10g, expected %.10g", i, Sv.at(i, 0).real(), s[i]); return; }
    for (int i = 0; i + 1 < k; i++) if (Sv.at(i, 0).real() < Sv.at(i + 1, 0).real()) { c.badf(NUM, "singular values not sorted"); return; }
    if (!vec) return;
    Mat u = U.get(), v = V.get();
    c.near_("U^H*U", ct(u) * u, eye(uc_, uc_), Tr<T>::tol(), 30); c.near_("VT*VT^H", v * ct(v), eye(vr, vr), Tr<T>::tol(), 30);
    Mat us(m, k); for (int j = 0; j < k; j++) for (int i = 0; i < m; i++) us(i, j) = u(i, j) * Sv.at(j, 0);
    c.near_("U*S*VT", us * sub(v, 0, 0, k, n), a, Tr<T>::tol(), 30 * sc);
}
template<class R> void stevx2(Cx &c, int job, int range, int n, int kind, int a1, int a2) {
    const int sk = kind / 8; kind %= 8; const double sca = sk == 0 ? 1 : std::ldexp(1.0, sizeof(R) == 8 ? (sk == 1 ? -40 : sk == 2 ? -200 : 200) : (sk == 1 ? -20 : sk == 2 ? -40 : 40));   // powers of two: eigenvalues scale exactly
    auto D = c.in<R>("diag", n, 1, 0), E = c.in<R>("offd", n - 1, 1, 0);
    for (int i = 0; i < n; i++) { double d = kind == 0 ? (i % 2 ? -1e-1 : 1e-1) : kind == 1 ? c.urand() * 2 : kind == 2 ? std::abs(n - 1 - 2 * i) / 2.0 : kind == 5 ? 3 - i : kind == 6 ? (i / 2 % 2 ? 1 : 2) : kind == 7 ? (i * 7 + 3) % (n + 7 - n % 7) - 2 : i * 1.25 - 2; D.set(i, 0, d * sca); if (i + 1 < n) E.set(i, 0, sca * (kind == 0 ? 1.0 : kind == 1 ? c.urand() + 1.5 : kind == 2 ? 1.0 : kind == 3 || kind == 5 || kind == 7 ? 0.0 : kind == 6 ? (i % 2 ? 0 : 1) : (i == n / 2 ? 1e-3 : 0.7))); }
    Mat a(n, n); for (int i = 0; i < n; i++) { a(i, i) = D.at(i, 0); if (i + 1 < n) a(i, i + 1) = a(i + 1, i) = E.at(i, 0); }
    double sh = 3 * (sca + a.maxabs()); Mat as = a; for (int i = 0; i < n; i++) as(i, i) += sh; std::vector<double> ev; jacobi_svd(as, ev); std::sort(ev.begin(), ev.end()); for (auto &x : ev) x -= sh;
    if (kind == 7) { for (int i = 0; i < n; i++) ev[i] = D.at(i, 0).real(); std::sort(ev.begin(), ev.end()); }
    // wanted indices [lo,hi)
    int lo, hi; R vl = 0, vu = 0; int il = 1, iu = 1;
    if (range == PlasmaRangeI) { il = a1; iu = a2; lo = il - 1; hi = iu; }
    else {
        lo = a1 - 1; hi = a2;
        vl = (R)(lo == 0 ? ev[0] - (a2 % 2 ? 0.5 : 50) * sca : (ev[lo - 1] + ev[lo]) / 2); vu = (R)(hi == n ? ev[n - 1] + (a1 % 2 ? 0.5 : 50) * sca : (ev[hi - 1] + ev[hi]) / 2);
        if (kind == 7) { vl = (R)ev[lo]; if (hi < n) vu = (R)ev[hi]; }        // the range is [vl, vu)
        if ((lo && ev[lo] - ev[lo - 1] < 1e-3 * sca) || (hi < n && ev[hi] - ev[hi - 1] < 1e-3 * sca)) { return; }     // no clear boundary there
    }
    int cnt = hi - lo;
    auto F = c.ints("found", 1, true); auto V = c.out<R>("val", cnt, 1, 0); auto Mu = c.ints("mul", cnt, true);
    Arr<R> Q; bool vec = job == PlasmaVec; if (vec) { Q = c.out<R>("vec", n, cnt, 0); c.fill_nan(Q); }
    c.fill_nan(V); for (int i = 0; i < cnt; i++) Mu.p[i] = 0; F.p[0] = -1;
    c.call([&]() -> int { if constexpr (std::is_same<R, double>::value) return plasma_dstevx2(job, range, n, cnt, D.p, E.p, vl, vu, il, iu, F.p, V.p, Mu.p, vec ? Q.p : nullptr); else return plasma_sstevx2(job, range, n, cnt, D.p, E.p, vl, vu, il, iu, F.p, V.p, Mu.p, vec ? Q.p : nullptr); }, "stevx2");
    if (!c.ok()) return;
    if (job == PlasmaCount) { if (F.p[0] != cnt) c.badf(NUM, "count is %d, expected %d", F.p[0], cnt); return; }
    int f = F.p[0], tot = 0; if (f < 0 || f > cnt) { c.badf(NUM, "found %d of %d", f, cnt); return; }
    double tol = Tr<R>::tol() * 10 * (sca + a.maxabs());
    for (int i = 0; i < f; i++) for (int q = 0; q < Mu.p[i]; q++) { if (tot >= cnt || !(std::abs(V.at(i, 0).real() - ev[lo + tot]) <= tol)) { c.badf(NUM, "eigenvalue %d is %.10g, expected %.10g", i, V.at(i, 0).real(), tot < cnt ? ev[lo + tot] : NAN); return; } tot++; }
    if (tot != cnt) { c.badf(NUM, "multiplicities add up to %d, expected %d", tot, cnt); return; }
    if (!vec) return;
    Mat q = sub(Q.get(), 0, 0, n, f); Mat r = a * q; for (int j = 0; j < f; j++) for (int i = 0; i < n; i++) r(i, j) -= V.at(j, 0) * q(i, j);
    c.near_("V^T*V", ct(q) * q, eye(f, f), Tr<R>::tol(), 30); c.near_("A*V-V*D", r, Mat(n, f), Tr<R>::tol(), 100 * (sca + a.maxabs()));
}
template<class T> void en_svd(Sink &S, bool full) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST;
    std::vector<int> sz, nbs, ibs = {2}, pads = {0, 2}; int kinds = 1, nmax = 4;
    if (num) { sz = full ? rng(0, 8) : std::vector<int>{2, 3, 5}; nbs = full ? std::vector<int>{1, 2, 3} : std::vector<int>{2}; ibs = {1, 2}; kinds = 3; nmax = full ? 6 : 4; if (S.tier) { sz = rng(0, 12); nbs = {1, 2, 3, 4, 5}; ibs = {1, 2, 3}; nmax = 9; } }
    else if (S.grid == G_SCHED) { sz = full ? std::vector<int>{2, 3, 5, 8} : std::vector<int>{5}; nbs = {2}; pads = {0}; nmax = 3; if (S.tier) { sz = rng(2, 7); nbs = {2, 3}; nmax = 4; } }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{0, 1, 2, 3, 5, 7} : std::vector<int>{3, 5}; nbs = {2, 3}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {5, 7}; nbs = {1, 2, 3, 4, 5}; ibs = {1, 2, 3, 5}; pads = {1}; nmax = 3; }
    else { sz = {3, 5}; nbs = {2}; pads = {1}; nmax = 3; }
    if (deep) { sz = {13, 33}; nbs = {2, 3, 16}; ibs = {1, 5}; pads = {1}; kinds = 1; nmax = 24; if (S.tier) { sz = {13, 21, 33}; nbs = {1, 2, 3, 5, 7, 16}; ibs = {1, 3, 5}; nmax = 40; } }
    if (big) { sz = {70}; nbs = {32}; ibs = {0}; nmax = 70; if (S.tier) { sz = {70, 150}; nbs = {32, 48}; } }
    for (int nb : nbs) for (int ib : ibs) { if (big) ib = 8; if (ib > nb) { if (S.grid != G_TUNE && nb < 2 && ib == 2 && !num) ib = nb; else continue; } Env e; e.nb = nb; e.ib = ib;
        for (int m : sz) for (int n : sz) for (int pad : pads) for (int k = 0; k < kinds; k++) for (int job : {(int)PlasmaNoVec, (int)PlasmaSomeVec, (int)PlasmaAllVec}) {
            if (small && (m == n || job == PlasmaAllVec)) continue;
            if (S.grid == G_SCHED && !S.tier && job == PlasmaAllVec) continue;
            ADD(S, e, ([=](Cx &c) { gesdd<T>(c, job, m, n, k, pad); }), "%cgesdd %c m%d n%d v%d p%d", p, job == PlasmaNoVec ? 'N' : job == PlasmaAllVec ? 'A' : 'S', m, n, k, pad);
        }
        if constexpr (!Tr<T>::cx) if (big || ib == ibs.back()) {
            for (int n = 1; n <= nmax; n++) for (int kind = 0; kind < (num ? 32 : 8); kind++) for (int range : {(int)PlasmaRangeI, (int)PlasmaRangeV}) for (int job : {(int)PlasmaCount, (int)PlasmaNoVec, (int)PlasmaVec}) {
                if (deep && n != nmax) continue;
                if (kind >= 8 && !deep && !S.tier && n < 3) continue;
                if (!num && n != nmax && n != 2) continue;
                if (small && (kind != 1 || n != nmax)) continue;
                if (job == PlasmaVec && kind % 8 == 7 && kind > 8) continue;
                if (job == PlasmaVec && big && p == 's' && kind >= 24) continue;                // nor does it return vectors of long single precision matrices of this scale      // LAPACK's stein itself reports no convergence on small diagonal matrices
                for (int a1 = 1; a1 <= n; a1++) for (int a2 = a1; a2 <= n; a2++) {
                    if (deep && (a1 != 1 || (a2 != n && a2 != 3)) && (a1 != 5 || a2 != 9) && (a1 != n || a2 != n)) continue;
                    if (!num && (a1 != 1 || a2 != n) && (a1 != 2 || a2 != 2)) continue;
                    ADD(S, e, ([=](Cx &c) { stevx2<T>(c, job, range, n, kind, a1, a2); }), "%cstevx2 %s%c n%d v%d %d..%d", p, job == PlasmaVec ? "vec" : job == PlasmaNoVec ? "val" : "cnt", range == PlasmaRangeI ? 'I' : 'V', n, kind, a1, a2);
                }
            }
        }
    }
}
// ---------------------------------------------------------------- mixed precision
// kinds: 0 well conditioned, 1 overflows single precision, 2 singular (indefinite) when rounded to single, 3 condition about 1e5
template<class T> Mat mixed_mat(Cx &c, int n, int kind, bool pos, int kl, int ku) {
    Mat a = pos ? hpd<T>(c, n, 2) : gen_band<T>(c, n, n, kl, ku, 0);
    if (n == 0) return a;
    if (kind == 1) a(n - 1, n - 1) = 1e39 * (1 + c.rnd() % 3);
    if (kind == 2) {
        // last two rows equal up to 1e-9
        int q = n >= 2 ? n - 2 : 0;
        if (n == 1) a(0, 0) = 1e-60;
        else { for (int j = 0; j < n; j++) { if (j != q && j != n - 1) { a(n - 1, j) = a(q, j) = 0; a(j, n - 1) = a(j, q) = 0; } } a(q, q) = 1; a(q, n - 1) = 1; a(n - 1, q) = 1; a(n - 1, n - 1) = 1 + 1e-9; }
    }
    if (kind == 3 && n >= 2) { int q = n - 2; for (int j = 0; j < n; j++) if (j != q && j != n - 1) { a(n - 1, j) = a(q, j) = 0; a(j, n - 1) = a(j, q) = 0; } a(q, q) = 1; a(q, n - 1) = 1; a(n - 1, q) = 1; a(n - 1, n - 1) = 1 + 1e-4; }
    return a;
}
template<class T> void mixed(Cx &c, int what, int uplo, int n, int r, int kl, int ku, int kind, int pad) {   // 0 gesv, 1 posv, 2 gbsv
    Arr<T> A; Arr<int> P;
    int rows = what == 2 ? band_rows(kl, ku, c.env.nb) : n;
    A = c.out<T>("A", rows, n, what == 2 ? (int)c.env.huge : pad); if (what != 1) P = c.ints("ipiv", n, true);
    auto B = c.in<T>("B", n, r, pad); auto X = c.out<T>("X", n, r, 2 * pad); auto It = c.ints("iter", 1, true); It.p[0] = -99;
    Mat a = mixed_mat<T>(c, n, kind == 4 ? 0 : kind == 5 ? 3 : kind, what == 1, what == 2 ? kl : n, what == 2 ? ku : n);
    if (what == 2) { for (int j = 0; j < n; j++) for (int i = 0; i < rows; i++) A.set(i, j, 0); for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (i - j <= kl && j - i <= ku) A.set(kl + ku + i - j, j, a(i, j)); else a(i, j) = 0; }
    else for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (what == 0 || (uplo == PlasmaLower ? i >= j : i <= j)) A.set(i, j, a(i, j)); else A.set(i, j, Z(NAN, Tr<T>::cx ? NAN : 0));
    c.fill_uni(B);
    // 4, 5: an exactly solvable (zero) column first, in the middle a tiny one
    const bool cols = kind >= 4; if (cols) { kind = kind == 4 ? 0 : 3; for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) if (j == (r > 3 ? 1 : 0)) B.set(i, j, 0); else if (j == r / 2) B.set(i, j, B.at(i, j) * 1e-20); }
    c.fill_nan(X); Mat b = B.get();
    c.call([&]() -> int {
        if constexpr (Tr<T>::cx) return what == 0 ? plasma_zcgesv(n, r, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 1 ? plasma_zcposv(uplo, n, r, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_zcgbsv(n, kl, ku, r, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p);
        else return what == 0 ? plasma_dsgesv(n, r, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p) : what == 1 ? plasma_dsposv(uplo, n, r, A.p, A.ld, B.p, B.ld, X.p, X.ld, It.p) : plasma_dsgbsv(n, kl, ku, r, A.p, A.ld, P.p, B.p, B.ld, X.p, X.ld, It.p); }, "mixed");
    if (!c.ok()) return;
    if (n == 0 || r == 0) return;
    // backward error of each solution component, row by row (kind 1 has one huge row)
    Mat x = X.get(), ax = a * x;
    if (cols) for (int j = 0; j < r; j++) { double xm = 0, bm = 0; for (int i = 0; i < n; i++) xm = std::max(xm, std::abs(x(i, j))), bm = std::max(bm, std::abs(b(i, j))); for (int i = 0; i < n; i++) if (!(std::abs(ax(i, j) - b(i, j)) <= 1e-13 * (a.maxabs() * xm + bm) * (n + 1))) { c.badf(NUM, "A*X(%d,%d) is off by %g", i, j, std::abs(ax(i, j) - b(i, j))); return; } }
    const double nrm = kind == 1 ? 0 : a.maxabs() * x.maxabs();
    for (int j = 0; j < r; j++) for (int i = 0; i < n; i++) { double s = std::abs(b(i, j)); for (int q = 0; q < n; q++) s += std::abs(a(i, q)) * std::abs(x(q, j));  if (!(std::abs(ax(i, j) - b(i, j)) <= 1e-12 * (1 + s + nrm) * (n + 1))) { c.badf(NUM, "A*X(%d,%d) is off by %g", i, j, std::abs(ax(i, j) - b(i, j))); return; } }
    if (kind == 0 && n >= 2 && c.mode != M_FAULT && !(It.p[0] >= 0 && It.p[0] <= 30)) c.badf(NUM, "iter = %d for a well-conditioned system", It.p[0]);
    if ((kind == 1 || kind == 2) && !(It.p[0] < 0)) c.badf(NUM, "iter = %d though single precision cannot represent the system", It.p[0]);
}
template<class T> void en_mixed(Sink &S) {
    char p = Tr<T>::p; bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep, small = S.grid == G_FAULT || S.grid == G_HIST; const char *pp = p == 'd' ? "ds" : "zc";
    std::vector<int> sz, nbs, pads = {0, 2}, rhs = {1, 3}, npts = {1}; int kinds = 1;
    if (num) { sz = rng(0, 8); nbs = {1, 2, 3}; rhs = {0, 1, 3}; kinds = 6; npts = {1, 2}; if (S.tier) { sz = rng(0, 12); nbs = {1, 2, 3, 4, 5}; rhs = {0, 1, 2, 3, 5}; } }
    else if (S.grid == G_SCHED) { sz = {2, 4, 5}; nbs = {2}; pads = {0}; rhs = {3}; kinds = 3; if (S.tier) { sz = rng(1, 7); nbs = {2, 3}; npts = {1, 2}; } }
    else if (S.grid == G_MEM) { sz = {0, 1, 3, 5, 7}; nbs = {2, 3}; pads = {0, 3}; kinds = 3; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; pads = {1}; rhs = {3}; npts = {1, 2, 3}; kinds = 2; }
    else { sz = {5}; nbs = {2}; pads = {1}; rhs = {3}; kinds = 3; }
    if (deep) { sz = {13, 33}; nbs = {1, 2, 16}; npts = {1, 4}; pads = {1}; rhs = {3, 20}; kinds = 6; if (S.tier) { sz = {13, 17, 21, 33}; nbs = {1, 2, 3, 7, 16}; } }
    if (big) { sz = {300}; nbs = {256}; npts = {1, 3}; rhs = {20}; if (S.tier) { sz = {250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) for (int pt : npts) { Env e; e.nb = nb; e.ib = big ? big_ib(nb) : std::min(2, nb); e.npt = pt;
        for (int n : sz) for (int pad : pads) for (int r : rhs) for (int k = 0; k < kinds; k++) { if (deep && n / nb > 16) continue;
            ADD(S, e, ([=](Cx &c) { mixed<T>(c, 0, 0, n, r, 0, 0, k, pad); }), "%sgesv n%d r%d v%d p%d", pp, n, r, k, pad);
            if (pt == 1) for (int u : UPLOS) ADD(S, e, ([=](Cx &c) { mixed<T>(c, 1, u, n, r, 0, 0, k, pad); }), "%sposv %c n%d r%d v%d p%d", pp, uc(u), n, r, k, pad);
            for (int kl : {0, 1, 2, 4}) for (int ku : {0, 1, 3}) { if (kl > std::max(0, n - 1) || ku > std::max(0, n - 1)) continue; if (k >= 2 && k != 4 && (kl < 1 || ku < 1)) continue; if (deep && kl != ku + 1) continue; if (!num && (kl != std::min(n - 1, 2) || ku != std::min(n - 1, 1))) continue;
                ADD(S, e, ([=](Cx &c) { mixed<T>(c, 2, 0, n, r, kl, ku, k, pad); }), "%sgbsv n%d kl%d ku%d r%d v%d p%d", pp, n, kl, ku, r, k, pad); }
        } }
}
}
void enum_aasen(Sink &S) { en_aasen<d_t>(S, true); en_aasen<z_t>(S, true); en_aasen<s_t>(S, false); en_aasen<c_t>(S, false); }
void enum_svd(Sink &S) { en_svd<d_t>(S, true); en_svd<z_t>(S, true); en_svd<s_t>(S, false); en_svd<c_t>(S, false); }
void enum_mixed(Sink &S) { en_mixed<d_t>(S); en_mixed<z_t>(S); }
