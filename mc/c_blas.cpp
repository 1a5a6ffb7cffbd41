// Level-3 BLAS catalogue.
#include "h.h"
namespace {
struct Sc { double re, im; };
template<class T> T sv(Sc s) { return mk<T>(Z(s.re, s.im)); }
static const Sc ALL[] = {{0, 0}, {1, 0}, {-2, 1}};

template<class T> void gemm(Cx &c, int ta, int tb, int m, int n, int k, Sc al, Sc be, int pad) {
    int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m, bm = tb == PlasmaNoTrans ? k : n, bn = tb == PlasmaNoTrans ? n : k;
    auto A = c.in<T>("A", am, an, pad), B = c.in<T>("B", bm, bn, 2 * pad), C = c.out<T>("C", m, n, pad);
    c.fill_int(A); c.fill_int(B); c.fill_int(C);
    Mat r = scale(up(sv<T>(al)), op(A.get(), ta) * op(B.get(), tb)) + scale(up(sv<T>(be)), C.get());
    if (al.re == 0 && al.im == 0) { c.fill_nan(A); c.fill_nan(B); }
    if (be.re == 0 && be.im == 0) c.fill_nan(C);
    c.call([&] { return API<T>::gemm(ta, tb, m, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); }, "gemm");
    if (!c.ok()) return;
    c.cmp("C", C, r);
}
template<class T> void symm(Cx &c, bool he, int side, int uplo, int m, int n, Sc al, Sc be, int pad) {
    int na = side == PlasmaLeft ? m : n;
    auto A = c.in<T>("A", na, na, pad), B = c.in<T>("B", m, n, 2 * pad), C = c.out<T>("C", m, n, pad);
    c.fill_int(A); c.fill_int(B); c.fill_int(C);
    for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) if (uplo == PlasmaLower ? i < j : i > j) A.set(i, j, Z(NAN, NAN));
    Mat a = herm(A.get(), uplo, he);
    Mat r = scale(up(sv<T>(al)), side == PlasmaLeft ? a * B.get() : B.get() * a) + scale(up(sv<T>(be)), C.get());
    if (be.re == 0 && be.im == 0) c.fill_nan(C);
    c.call([&]() -> int {
        if constexpr (Tr<T>::cx) if (he) return APIH<T>::hemm(side, uplo, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld);
        return API<T>::symm(side, uplo, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); }, he ? "hemm" : "symm");
    if (!c.ok()) return;
    c.cmp("C", C, r);
}
// rank-k and rank-2k; he: hermitian versions
template<class T> void rk(Cx &c, bool he, bool two, int uplo, int trans, int n, int k, Sc al, Sc be, int pad) {
    typedef typename Tr<T>::R R;
    int am = trans == PlasmaNoTrans ? n : k, an = trans == PlasmaNoTrans ? k : n;
    auto A = c.in<T>("A", am, an, pad); Arr<T> B = A; if (two) B = c.in<T>("B", am, an, 2 * pad);
    auto C = c.out<T>("C", n, n, pad);
    c.fill_int(A); if (two) c.fill_int(B); c.fill_int(C);
    if (he) for (int i = 0; i < n; i++) C.set(i, i, C.at(i, i).real());
    Mat a = trans == PlasmaNoTrans ? A.get() : he ? ct(A.get()) : tr(A.get()), b = trans == PlasmaNoTrans ? B.get() : he ? ct(B.get()) : tr(B.get());
    auto t = [&](const Mat &x) { return he ? ct(x) : tr(x); };
    Z zal = he && !two ? Z(al.re) : up(sv<T>(al)), zbe = he ? Z(be.re) : up(sv<T>(be));
    Mat r = two ? scale(zal, a * t(b)) + scale(he ? std::conj(zal) : zal, b * t(a)) : scale(zal, a * t(a));
    r = r + scale(zbe, C.get());
    if (zbe == Z(0)) c.fill_nan(C);
    auto inu = [=](int i, int j) { return uplo == PlasmaLower ? i >= j : i <= j; };
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!inu(i, j)) C.set(i, j, Z(NAN, NAN));
    c.call([&]() -> int {
        if constexpr (Tr<T>::cx) if (he) return two ? APIH<T>::her2k(uplo, trans, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, (R)be.re, C.p, C.ld) : APIH<T>::herk(uplo, trans, n, k, (R)al.re, A.p, A.ld, (R)be.re, C.p, C.ld);
        return two ? API<T>::syr2k(uplo, trans, n, k, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld) : API<T>::syrk(uplo, trans, n, k, sv<T>(al), A.p, A.ld, sv<T>(be), C.p, C.ld); }, "rk");
    if (!c.ok()) return;
    Mat g = C.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (!inu(i, j)) g(i, j) = r(i, j) = 0;
    c.near_("C", g, r, Tr<T>::tol());
    c.same("C", C, [&](int i, int j) { return !inu(i, j); });
}
template<class T> void trm(Cx &c, bool solve, int side, int uplo, int trans, int diag, int m, int n, Sc al, int pad) {
    int na = side == PlasmaLeft ? m : n;
    auto A = c.in<T>("A", na, na, pad); auto B = c.out<T>("B", m, n, pad);
    c.fill_int(A, 1); c.fill_int(B);
    for (int j = 0; j < na; j++) for (int i = 0; i < na; i++) {
        if (i == j) A.set(i, j, diag == PlasmaUnit ? Z(NAN, NAN) : Z(c.irand(0, 1) ? 2 : -1, Tr<T>::cx ? c.irand(0, 1) : 0));
        else if (uplo == PlasmaLower ? i < j : i > j) A.set(i, j, Z(NAN, NAN));
        else if (na > 64) A.set(i, j, A.at(i, j) * (4.0 / na));
    }
    Mat a = trian(A.get(), uplo, diag == PlasmaUnit), b = B.get();
    if (al.re == 0 && al.im == 0) c.fill_nan(B);
    c.call([&] { return solve ? API<T>::trsm(side, uplo, trans, diag, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld) : API<T>::trmm(side, uplo, trans, diag, m, n, sv<T>(al), A.p, A.ld, B.p, B.ld); }, solve ? "trsm" : "trmm");
    if (!c.ok()) return;
    Mat ab = scale(up(sv<T>(al)), b), oa = op(a, trans);
    if (!solve) { Mat r = side == PlasmaLeft ? oa * ab : ab * oa; if (al.re == 0 && al.im == 0) r = Mat(m, n); c.cmp("B", B, r); }
    else { if (al.re == 0 && al.im == 0) ab = Mat(m, n); Mat x = B.get(); c.near_("op(A)*X", side == PlasmaLeft ? oa * x : x * oa, ab, Tr<T>::tol(), 1 + oa.maxabs() * x.maxabs() * na); }
}
template<class T> void gbmm(Cx &c, int ta, int tb, int m, int n, int k, int kl, int ku, Sc al, Sc be, int pad) {
    int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m, bm = tb == PlasmaNoTrans ? k : n, bn = tb == PlasmaNoTrans ? n : k;
    auto A = c.in<T>("A", am, an, pad), B = c.in<T>("B", bm, bn, 2 * pad), C = c.out<T>("C", m, n, pad);
    c.fill_int(A); c.fill_int(B); c.fill_int(C);
    for (int j = 0; j < an; j++) for (int i = 0; i < am; i++) if (i - j > kl || j - i > ku) A.set(i, j, 0);
    Mat r = scale(up(sv<T>(al)), op(A.get(), ta) * op(B.get(), tb)) + scale(up(sv<T>(be)), C.get());
    if (be.re == 0 && be.im == 0) c.fill_nan(C);
    c.call([&] { return API<T>::gbmm(ta, tb, m, n, k, kl, ku, sv<T>(al), A.p, A.ld, B.p, B.ld, sv<T>(be), C.p, C.ld); }, "gbmm");
    if (!c.ok()) return;
    c.cmp("C", C, r);
}

template<class T> void en(Sink &S, bool full) {
    char p = Tr<T>::p; bool cx = Tr<T>::cx; auto TT = transes<T>();
    bool big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM, sched = S.grid == G_SCHED;
    std::vector<int> sz; std::vector<int> nbs;
    std::vector<std::pair<Sc, Sc>> ab; std::vector<int> pads = {0, 1};
    if (num) { sz = full ? (S.tier ? std::vector<int>{0, 1, 2, 3, 4, 5, 6, 7, 8, 9} : std::vector<int>{0, 1, 2, 3, 4, 5, 7}) : std::vector<int>{1, 2, 3, 5}; nbs = full ? std::vector<int>{2, 3} : std::vector<int>{2};
        for (auto a : ALL) for (auto b : ALL) ab.push_back({a, b}); }
    else if (sched) { sz = full ? std::vector<int>{1, 3, 4, 6, 7} : std::vector<int>{3, 6}; nbs = {2}; ab = {{ALL[2], ALL[2]}, {ALL[1], ALL[0]}, {ALL[0], ALL[2]}}; pads = {0}; if (S.tier && full) sz = {1, 2, 3, 4, 5, 6, 7, 8}; }
    else if (S.grid == G_MEM) { sz = full ? std::vector<int>{0, 1, 2, 3, 5, 7} : std::vector<int>{1, 3, 5}; nbs = {2, 3}; ab = {{ALL[2], ALL[2]}, {ALL[0], ALL[1]}}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; ab = {{ALL[2], ALL[2]}}; pads = {1}; }
    else { sz = {3}; nbs = {2}; ab = {{ALL[2], ALL[2]}}; pads = {1}; }
    if (deep) { sz = full ? std::vector<int>{3, 13, 33} : std::vector<int>{13}; nbs = {1, 2, 16}; ab = {{ALL[2], ALL[2]}}; if (S.tier) { sz = {3, 13, 21, 33}; nbs = {1, 2, 3, 7, 16}; ab.push_back({ALL[2], ALL[0]}); } }
    if (big) { sz = {70, 300}; nbs = {256}; ab = {{ALL[2], ALL[2]}}; if (S.tier) { sz = {70, 250, 520}; nbs = {32, 100, 256}; } TT = {PlasmaNoTrans, CT<T>()}; }
    bool small = S.grid == G_FAULT || S.grid == G_HIST;
    if (small) TT = {CT<T>()};
    for (int nb : nbs) { Env e; e.nb = nb; e.ib = big ? big_ib(nb) : 1;
    for (int pad : pads) for (size_t q = 0; q < ab.size(); q++) { Sc al = ab[q].first, be = ab[q].second;
        bool main_ab = q == ab.size() - 1 || !num;
        for (int m : sz) for (int n : sz) {
            // gemm: the full product of scalars only for part of the shapes
            for (int k : sz) for (int ta : TT) for (int tb : TT) {
                if (deep && m / nb * (n / nb) * (k / nb) > 5000) continue;
                if (num && !S.tier && !main_ab && ((m + n + k) % 3) && k) continue;
                ADD(S, e, ([=](Cx &c) { gemm<T>(c, ta, tb, m, n, k, al, be, pad); }), "%cgemm %c%c m%d n%d k%d a%zu p%d", p, tc(ta), tc(tb), m, n, k, q, pad);
            }
            for (int s : SIDES) for (int u : UPLOS) {
                if (small && (s == PlasmaRight) != (u == PlasmaLower)) continue;
                for (int he = 0; he <= (int)cx; he++) ADD(S, e, ([=](Cx &c) { symm<T>(c, he, s, u, m, n, al, be, pad); }), "%c%smm %c%c m%d n%d a%zu p%d", p, he ? "he" : "sy", sc(s), uc(u), m, n, q, pad);
                if (q % 3 == 2 || q == 0) for (int t : TT) for (int d : DIAGS) for (int sol = 0; sol < 2; sol++) {
                    Sc a2 = q == 0 && num ? ALL[1] : q == 2 && num ? ALL[0] : al;
                    if (small && d == PlasmaUnit) continue;
                    ADD(S, e, ([=](Cx &c) { trm<T>(c, sol, s, u, t, d, m, n, a2, pad); }), "%c%s %c%c%c%c m%d n%d a%zu p%d", p, sol ? "trsm" : "trmm", sc(s), uc(u), tc(t), d == PlasmaUnit ? 'U' : 'N', m, n, q, pad);
                }
            }
            // m = order, n = k
            for (int u : UPLOS) for (int two = 0; two < 2; two++) {
                if (small && u == PlasmaUpper) continue;
                for (int t : {(int)PlasmaNoTrans, (int)PlasmaTrans}) ADD(S, e, ([=](Cx &c) { rk<T>(c, false, two, u, t, m, n, al, be, pad); }), "%csyr%s %c%c n%d k%d a%zu p%d", p, two ? "2k" : "k", uc(u), tc(t), m, n, q, pad);
                if (cx) for (int t : {(int)PlasmaNoTrans, (int)PlasmaConjTrans}) ADD(S, e, ([=](Cx &c) { rk<T>(c, true, two, u, t, m, n, al, be, pad); }), "%cher%s %c%c n%d k%d a%zu p%d", p, two ? "2k" : "k", uc(u), tc(t), m, n, q, pad);
            }
        }
        // gbmm
        if (main_ab || q % 4 == 0) for (int m : sz) for (int n : sz) if (n <= 5 || big) for (int k : sz) for (int kl : deep ? std::vector<int>{0, 7, 20} : std::vector<int>{0, 1, 2, 4}) for (int ku : deep ? std::vector<int>{0, 2, 12} : std::vector<int>{0, 1, 3}) {
            if (m == 0 || n == 0) { if (kl || ku) continue; }
            if (small && (kl != 1 || ku != 1)) continue;
            for (int ta : TT) for (int tb : TT) {
                if (num && !full && ta != PlasmaNoTrans && tb != PlasmaNoTrans) continue;
                int am = ta == PlasmaNoTrans ? m : k, an = ta == PlasmaNoTrans ? k : m;
                if (kl > std::max(0, am - 1) || ku > std::max(0, an - 1)) continue;
                ADD(S, e, ([=](Cx &c) { gbmm<T>(c, ta, tb, m, n, k, kl, ku, al, be, pad); }), "%cgbmm %c%c m%d n%d k%d kl%d ku%d a%zu p%d", p, tc(ta), tc(tb), m, n, k, kl, ku, q, pad);
            }
        }
    } }
}
}
void enum_blas(Sink &S) { en<d_t>(S, true); en<z_t>(S, true); en<s_t>(S, false); en<c_t>(S, false); }
