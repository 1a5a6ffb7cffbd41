// Matrix utilities catalogue.
#include "h.h"
namespace {
static bool inpart(int uplo, int i, int j) { return uplo == PlasmaGeneral ? true : uplo == PlasmaUpper ? i <= j : i >= j; }
static const int UPLG[3] = {PlasmaGeneral, PlasmaUpper, PlasmaLower};

// B = op(A) in the part of A named by uplo (A m-by-n; square when transposed, as the routine insists); the rest of B keeps its content.
template<class T> void lacpy(Cx &c, int uplo, int trans, int m, int n, int pad) {
    auto A = c.in<T>("A", m, n, pad);
    int bm = trans == PlasmaNoTrans ? m : n, bn = trans == PlasmaNoTrans ? n : m;
    auto B = c.out<T>("B", bm, bn, 2 * pad + (trans == PlasmaNoTrans ? 0 : std::max(0, m - n)));
    c.fill_uni(A); c.fill_uni(B);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!inpart(uplo, i, j)) A.set(i, j, Z(NAN, NAN));
    Mat r = B.get(), a = A.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inpart(uplo, i, j)) {
        if (trans == PlasmaNoTrans) r(i, j) = a(i, j); else r(j, i) = trans == PlasmaTrans ? a(i, j) : std::conj(a(i, j)); }
    c.call([&] { return API<T>::lacpy(uplo, trans, m, n, A.p, A.ld, B.p, B.ld); }, "lacpy");
    if (!c.ok()) return;
    c.near_("B", B.get(), r, 0);
}
template<class T> void laset(Cx &c, int uplo, int m, int n, int pad) {
    auto A = c.out<T>("A", m, n, pad); c.fill_uni(A);
    Z al = up(mk<T>(Z(0.5, -1))), be = up(mk<T>(Z(3, 2)));
    Mat r = A.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inpart(uplo, i, j)) r(i, j) = i == j ? be : al;
    c.call([&] { return API<T>::laset(uplo, m, n, mk<T>(al), mk<T>(be), A.p, A.ld); }, "laset");
    if (!c.ok()) return;
    c.near_("A", A.get(), r, 0);
}
// clears what is outside the band and nothing else
template<class T> void gbset(Cx &c, int m, int n, int kl, int ku, int pad) {
    auto A = c.out<T>("A", m, n, pad); c.fill_uni(A);
    Mat r = A.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j > kl || j - i > ku) r(i, j) = 0;
    c.call([&] { API<T>::gbset(m, n, kl, ku, A.p, A.ld); return 0; }, "gbset");
    if (!c.ok()) return;
    c.near_("A", A.get(), r, 0);
}
template<class T> void lascl(Cx &c, int uplo, int m, int n, double from, double to, int pad) {
    typedef typename Tr<T>::R R;
    auto A = c.out<T>("A", m, n, pad); c.fill_int(A);
    Mat r = A.get();
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (inpart(uplo, i, j)) r(i, j) *= to / from; else { A.set(i, j, Z(NAN, NAN)); r(i, j) = 0; }
    c.call([&] { return API<T>::lascl(uplo, (R)from, (R)to, m, n, A.p, A.ld); }, "lascl");
    if (!c.ok()) return;
    Mat g = A.get(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!inpart(uplo, i, j)) g(i, j) = 0;
    c.near_("A", g, r, Tr<T>::tol());
    c.same("A", A, [&](int i, int j) { return !inpart(uplo, i, j); });
}
template<class T> void add(Cx &c, int uplo, int trans, int m, int n, Z al, Z be, int pad) {
    bool g = uplo == PlasmaGeneral;
    int am = trans == PlasmaNoTrans ? m : n, an = trans == PlasmaNoTrans ? n : m;
    auto A = c.in<T>("A", am, an, pad); auto B = c.out<T>("B", m, n, 2 * pad);
    c.fill_int(A); c.fill_int(B);
    Z za = up(mk<T>(al)), zb = up(mk<T>(be));
    Mat oa = op(A.get(), trans), b = B.get(), r(m, n);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) {
        if (inpart(uplo, i, j)) { r(i, j) = za * oa(i, j) + zb * b(i, j); if (zb == Z(0)) B.set(i, j, Z(0)); }
        else { B.set(i, j, Z(NAN, NAN)); if (trans == PlasmaNoTrans) A.set(i, j, Z(NAN, NAN)); else A.set(j, i, Z(NAN, NAN)); }
    }
    c.call([&] { return g ? API<T>::geadd(trans, m, n, mk<T>(al), A.p, A.ld, mk<T>(be), B.p, B.ld) : API<T>::tradd(uplo, trans, m, n, mk<T>(al), A.p, A.ld, mk<T>(be), B.p, B.ld); }, g ? "geadd" : "tradd");
    if (!c.ok()) return;
    Mat h = B.get(); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (!inpart(uplo, i, j)) h(i, j) = 0;
    c.near_("B", h, r, Tr<T>::tol());
    c.same("B", B, [&](int i, int j) { return !inpart(uplo, i, j); });
}
// successive interchanges of row/column i with ipiv[i], forwards (incx 1) or backwards (-1)
template<class T> void geswp(Cx &c, int colrow, int m, int n, int incx, int pat, int pad) {
    auto A = c.out<T>("A", m, n, pad); c.fill_uni(A);
    int len = colrow == PlasmaRowwise ? m : n;
    auto P = c.ints("ipiv", len, false);
    for (int i = 0; i < len; i++) P.p[i] = pat == 0 ? len : pat == 1 ? i + 1 + (int)(c.rnd() % (u64)(len - i)) : pat == 2 ? std::min(len, i + 2) : i + 1;
    Mat r = A.get();
    for (int q = 0; q < len; q++) {
        int i = incx > 0 ? q : len - 1 - q, k = P.p[i] - 1;
        if (colrow == PlasmaRowwise) for (int j = 0; j < n; j++) std::swap(r(i, j), r(k, j)); else for (int j = 0; j < m; j++) std::swap(r(j, i), r(j, k));
    }
    c.call([&] { return API<T>::geswp(colrow, m, n, A.p, A.ld, P.p, incx); }, "geswp");
    if (!c.ok()) return;
    c.near_("A", A.get(), r, 0);
}
template<class T, class S> void lag2(Cx &c, int m, int n, int pad, int big) {   // narrowing
    auto A = c.in<T>("A", m, n, pad); auto As = c.out<S>("As", m, n, 2 * pad); c.fill_uni(A); c.fill_uni(As);
    if (big) { int q = (int)(c.rnd() % (u64)(m * n)); double v = big == 1 ? 1e39 : -4e38; if (big == 3 && Tr<T>::cx) A.set(q % m, q / m, Z(1, 1e39)); else A.set(q % m, q / m, Z(v, 0)); }
    Mat r = A.get();
    c.call([&]() -> int { if constexpr (Tr<T>::cx) return plasma_zlag2c(m, n, A.p, A.ld, As.p, As.ld); else return plasma_dlag2s(m, n, A.p, A.ld, As.p, As.ld); }, "lag2");
    if (big) { if (!c.oom && !(c.mode == M_FAULT && c.rc == PlasmaErrorOutOfMemory) && c.rc == 0) c.badf(RC, "conversion of a value that does not fit returned 0"); if (c.rc) { if (c.mode == M_FAULT) c.oom = true; } return; }
    if (!c.ok()) return;
    Mat w(m, n); for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) w(i, j) = up(mk<S>(r(i, j)));
    c.near_("As", As.get(), w, 0);
}
template<class T, class S> void lag2up(Cx &c, int m, int n, int pad) {          // widening
    auto A = c.in<S>("As", m, n, pad); auto B = c.out<T>("A", m, n, 2 * pad); c.fill_uni(A); c.fill_uni(B);
    Mat r = A.get();
    c.call([&]() -> int { if constexpr (Tr<T>::cx) return plasma_clag2z(m, n, A.p, A.ld, B.p, B.ld); else return plasma_slag2d(m, n, A.p, A.ld, B.p, B.ld); }, "lag2up");
    if (!c.ok()) return;
    c.near_("A", B.get(), r, 0);
}
static std::vector<int> band(int k) { std::vector<int> v; for (int x : {0, 1, 2, k / 2, k - 2, k - 1}) if (x >= 0 && (x < k || !x) && std::find(v.begin(), v.end(), x) == v.end()) v.push_back(x); return v; }
template<class T> void en(Sink &S) {
    char p = Tr<T>::p; auto TT = transes<T>();
    std::vector<int> sz, nbs; std::vector<int> pads = {0, 2};
    bool small = S.grid == G_FAULT || S.grid == G_HIST;
    if (S.grid == G_NUM) { sz = {0, 1, 2, 3, 4, 5, 6, 7, 8}; nbs = {1, 2, 3, 5}; if (S.tier) { sz = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}; nbs = {1, 2, 3, 4, 5, 16}; } }
    else if (S.grid == G_SCHED) { sz = {1, 3, 4, 5, 7, 8}; nbs = {2}; pads = {0}; if (S.tier) { sz = {1, 2, 3, 4, 5, 6, 7, 8, 9}; nbs = {2, 3}; } }
    else if (S.grid == G_MEM) { sz = {0, 1, 2, 3, 5, 7}; nbs = {2, 3}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; pads = {1}; }
    else { sz = {3}; nbs = {2}; pads = {1}; }
    if (S.grid == G_DEEP) { sz = {3, 13, 33}; nbs = {1, 2, 16}; pads = {1}; if (S.tier) { sz = {3, 13, 21, 33, 64}; nbs = {1, 2, 3, 7, 16}; } }
    if (S.grid == G_BIG) { sz = {70, 300}; nbs = {256}; pads = {1}; if (S.tier) { sz = {70, 250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) { Env e; e.nb = nb; e.ib = 1;
    for (int m : sz) for (int n0 : sz) for (int pad : pads) { int n = small ? 3 : n0;
        for (int u : UPLG) {
            for (int t : TT) { if (small && t == PlasmaTrans) continue;
                if (t == PlasmaNoTrans || m == n) ADD(S, e, ([=](Cx &c) { lacpy<T>(c, u, t, m, n, pad); }), "%clacpy %c%c m%d n%d p%d", p, uc(u), tc(t), m, n, pad);
                for (int q = 0; q < 4; q++) { if ((small || S.grid == G_SCHED) && q != 3) continue;
                    // tradd: zero beta is not documented to ignore B
                    Z al = q == 0 ? Z(0) : q == 1 ? Z(1) : Z(-2, 1), be = q == 0 ? Z(2, 1) : q == 1 ? Z(0) : q == 2 ? Z(1) : Z(3, -1);
                    ADD(S, e, ([=](Cx &c) { add<T>(c, u, t, m, n, al, be, pad); }), "%c%s %c%c m%d n%d a%d p%d", p, u == PlasmaGeneral ? "geadd" : "tradd", uc(u), tc(t), m, n, q, pad); }
            }
            ADD(S, e, ([=](Cx &c) { laset<T>(c, u, m, n, pad); }), "%claset %c m%d n%d p%d", p, uc(u), m, n, pad);
            if (u == PlasmaGeneral) for (int kl : band(m)) for (int ku : band(n)) { if (small && (kl || ku)) continue;
                ADD(S, e, ([=](Cx &c) { gbset<T>(c, m, n, kl, ku, pad); }), "%cgbset m%d n%d l%d u%d p%d", p, m, n, kl, ku, pad); }
            ADD(S, e, ([=](Cx &c) { lascl<T>(c, u, m, n, 2, 3, pad); }), "%clascl %c m%d n%d p%d", p, uc(u), m, n, pad);
        }
        for (int cr : {(int)PlasmaRowwise, (int)PlasmaColumnwise}) for (int ix : {1, -1}) for (int pat = 0; pat < 4; pat++) {
            if (small && pat != 1) continue;
            ADD(S, e, ([=](Cx &c) { geswp<T>(c, cr, m, n, ix, pat, pad); }), "%cgeswp %s %s m%d n%d i%d p%d", p, cr == PlasmaRowwise ? "row" : "col", ix > 0 ? "fwd" : "bwd", m, n, pat, pad);
        }
        if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) {
            typedef typename std::conditional<Tr<T>::cx, c_t, s_t>::type Sg;
            for (int big = 0; big < 4; big++) { if (big && (m == 0 || n == 0 || S.grid != G_NUM)) continue;
                ADD(S, e, ([=](Cx &c) { lag2<T, Sg>(c, m, n, pad, big); }), "%clag2%c m%d n%d v%d p%d", p, Tr<Sg>::p, m, n, big, pad); }
            ADD(S, e, ([=](Cx &c) { lag2up<T, Sg>(c, m, n, pad); }), "%clag2%c m%d n%d p%d", Tr<Sg>::p, p, m, n, pad);
        }
    } }
}
}
void enum_util(Sink &S) { en<d_t>(S); en<z_t>(S); en<s_t>(S); en<c_t>(S); }
