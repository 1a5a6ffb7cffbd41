// Norms and column/row maxima.
#include "h.h"
namespace {
static const int NORMS[4] = {PlasmaMaxNorm, PlasmaOneNorm, PlasmaInfNorm, PlasmaFrobeniusNorm};
static const char NCH[4] = {'M', '1', 'I', 'F'};
static double norm_ref(const Mat &a, int nt) {
    double r = 0;
    if (nt == PlasmaMaxNorm) return a.maxabs();
    if (nt == PlasmaOneNorm) { for (int j = 0; j < a.n; j++) { double s = 0; for (int i = 0; i < a.m; i++) s += std::abs(a(i, j)); r = std::max(r, s); } return r; }
    if (nt == PlasmaInfNorm) return norm_ref(tr(a), PlasmaOneNorm);
    for (auto &x : a.a) r += std::norm(x);
    return std::sqrt(r);
}
// place the largest entries so that every element decides the result in some case: pos >= 0 selects it
template<class T> void data(Cx &c, Arr<T> A, int pos) {
    c.fill_int(A, 2);
    if (pos >= 0 && A.m > 0 && A.n > 0) { int i = pos % A.m, j = (pos / A.m) % A.n; A.set(i, j, Z(7, Tr<T>::cx ? -5 : 0)); }
}
template<class T> void value(Cx &c, double v, double ref) {
    if (c.oom) return;
    if (c.mode == M_FAULT && v == (double)PlasmaErrorOutOfMemory) { c.oom = true; return; }
    if (!(std::abs(v - ref) <= Tr<T>::tol() * (1 + ref))) c.badf(NUM, "norm = %.12g, expected %.12g", v, ref);
}
template<class T> void lange(Cx &c, int nt, int m, int n, int pos, int pad) {
    auto A = c.in<T>("A", m, n, pad); data(c, A, pos); double ref = norm_ref(A.get(), nt);
    double v = c.dcall([&] { return (double)API<T>::lange(nt, m, n, A.p, A.ld); }, "lange"); value<T>(c, v, ref);
}
template<class T> void lansy(Cx &c, bool he, int nt, int u, int n, int pos, int pad) {
    auto A = c.in<T>("A", n, n, pad); data(c, A, pos);
    for (int j = 0; j < n; j++) for (int i = 0; i < n; i++) if (u == PlasmaLower ? i < j : i > j) { if (!(pos >= 0)) A.set(i, j, Z(NAN, NAN)); else { A.set(j, i, A.at(i, j)); A.set(i, j, Z(NAN, NAN)); } }
    Mat a = herm(A.get(), u, he); double ref = norm_ref(a, nt);
    double v = c.dcall([&]() -> double { if constexpr (Tr<T>::cx) if (he) return (double)APIH<T>::lanhe(nt, u, n, A.p, A.ld); return (double)API<T>::lansy(nt, u, n, A.p, A.ld); }, "lansy"); value<T>(c, v, ref);
}
template<class T> void lantr(Cx &c, int nt, int u, int d, int m, int n, int pos, int pad) {
    auto A = c.in<T>("A", m, n, pad); data(c, A, pos);
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { if (u == PlasmaLower ? i < j : i > j) A.set(i, j, Z(NAN, NAN)); else if (i == j && d == PlasmaUnit) A.set(i, j, Z(NAN, NAN)); }
    Mat a = trian(A.get(), u, d == PlasmaUnit); double ref = norm_ref(a, nt);
    double v = c.dcall([&] { return (double)API<T>::lantr(nt, u, d, m, n, A.p, A.ld); }, "lantr"); value<T>(c, v, ref);
}
// Band storage with the room the band routines need: (kut+klt+1)*nb rows, element (i,j) in row kl+ku+i-j, zeros elsewhere.
template<class T> void langb(Cx &c, int nt, int m, int n, int kl, int ku, int pos, int pad) {
    int rows = band_rows(kl, ku, c.env.nb) + pad;
    auto A = c.in<T>("AB", rows, n, c.env.huge); for (int j = 0; j < n; j++) for (int i = 0; i < rows; i++) A.set(i, j, 0);
    Mat a(m, n); int cnt = 0, tot = 0;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j <= kl && j - i <= ku) tot++;
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) if (i - j <= kl && j - i <= ku) { a(i, j) = up(mk<T>(c.ival<T>(2))); if (pos >= 0 && tot && cnt == pos % tot) a(i, j) = Z(7, Tr<T>::cx ? -5 : 0); cnt++; A.set(kl + ku + i - j, j, a(i, j)); }
    double ref = norm_ref(a, nt);
    double v = c.dcall([&] { return (double)API<T>::langb(nt, m, n, kl, ku, A.p, A.ld); }, "langb"); value<T>(c, v, ref);
}
template<class T> void amax(Cx &c, int cr, int m, int n, int pos, int pad) {
    typedef typename Tr<T>::R R;
    auto A = c.in<T>("A", m, n, pad); data(c, A, pos);
    int len = cr == PlasmaColumnwise ? n : m;
    auto V = c.out<R>("values", len, 1, 0); c.fill_uni(V);
    Mat r(len, 1); Mat a = A.get();
    // magnitude as in the BLAS i?amax routines: 1-norm of the complex number
    for (int j = 0; j < n; j++) for (int i = 0; i < m; i++) { int k = cr == PlasmaColumnwise ? j : i; double v = std::abs(a(i, j).real()) + std::abs(a(i, j).imag()); if (v > r(k, 0).real()) r(k, 0) = v; }
    c.call([&] { return API<T>::amax(cr, m, n, A.p, A.ld, V.p); }, "amax");
    if (!c.ok()) return;
    if (m == 0 || n == 0) return;
    c.near_("values", V.get(), r, Tr<T>::tol());
}
template<class T> void en(Sink &S) {
    char p = Tr<T>::p;
    std::vector<int> sz, nbs, pads = {0, 2};
    bool small = S.grid == G_FAULT || S.grid == G_HIST, big = S.grid == G_BIG, deep = S.grid == G_DEEP || big, num = S.grid == G_NUM || deep;
    if (num) { sz = {0, 1, 2, 3, 4, 5, 6, 7}; nbs = {2, 3}; if (S.tier) { sz = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}; nbs = {1, 2, 3, 4, 5, 16}; } }
    else if (S.grid == G_SCHED) { sz = {1, 3, 4, 5, 7, 8}; nbs = {2}; pads = {0}; if (S.tier) { sz = {1, 2, 3, 4, 5, 6, 7, 8, 9}; nbs = {2, 3}; } }
    else if (S.grid == G_MEM) { sz = {0, 1, 2, 3, 5, 7}; nbs = {2, 3}; pads = {0, 3}; }
    else if (S.grid == G_TUNE) { sz = {1, 5, 7}; nbs = {1, 2, 3, 4, 5, 7, 8, 20}; pads = {1}; }
    else { sz = {3}; nbs = {2}; pads = {1}; }
    if (deep) { sz = {3, 13, 33}; nbs = {1, 2, 16}; pads = {1}; if (S.tier) { sz = {3, 13, 21, 33, 64}; nbs = {1, 2, 3, 7, 16}; } }
    if (big) { sz = {70, 300}; nbs = {256}; if (S.tier) { sz = {70, 250, 520}; nbs = {32, 100, 256}; } }
    for (int nb : nbs) { Env e; e.nb = nb; e.ib = 1;
    for (int q = 0; q < 4; q++) { int nt = NORMS[q];
        for (int m : sz) for (int n0 : sz) for (int pad : pads) { int n = small ? 4 : n0;
            int last = num ? std::max(0, m * n - 1) : 0;
            if (num && pad && !S.tier && m * n > 20) last = 0;
            for (int pos = num ? -1 : 0; pos <= last; pos++) { if (deep && pos > 0 && pos != last && pos != last / 2) continue;
                ADD(S, e, ([=](Cx &c) { lange<T>(c, nt, m, n, pos, pad); }), "%clange %c m%d n%d x%d p%d", p, NCH[q], m, n, pos, pad);
                for (int u : UPLOS) {
                    if (m == n) for (int he = 0; he <= (int)Tr<T>::cx; he++) ADD(S, e, ([=](Cx &c) { lansy<T>(c, he, nt, u, n, pos, pad); }), "%clan%s %c%c n%d x%d p%d", p, he ? "he" : "sy", NCH[q], uc(u), n, pos, pad);
                    for (int d : DIAGS) { if (d == PlasmaUnit && pos > 3) continue; ADD(S, e, ([=](Cx &c) { lantr<T>(c, nt, u, d, m, n, pos, pad); }), "%clantr %c%c%c m%d n%d x%d p%d", p, NCH[q], uc(u), d == PlasmaUnit ? 'U' : 'N', m, n, pos, pad); }
                }
                if (q < 2) ADD(S, e, ([=](Cx &c) { amax<T>(c, q ? PlasmaRowwise : PlasmaColumnwise, m, n, pos, pad); }), "%camax %s m%d n%d x%d p%d", p, q ? "row" : "col", m, n, pos, pad);
            }
            for (int kl : deep ? std::vector<int>{0, 7, 20} : std::vector<int>{0, 1, 2, 3, 5}) for (int ku : deep ? std::vector<int>{0, 2, 17} : std::vector<int>{0, 1, 3}) {
                if (small && (kl != 1 || ku != 1)) continue;
                if (kl > std::max(0, m - 1) || ku > std::max(0, n - 1)) continue;
                int lastb = num ? std::min(std::max(0, m * n - 1), 12) : 0;
                for (int pos = num ? -1 : 0; pos <= lastb; pos++) ADD(S, e, ([=](Cx &c) { langb<T>(c, nt, m, n, kl, ku, pos, pad); }), "%clangb %c m%d n%d kl%d ku%d x%d p%d", p, NCH[q], m, n, kl, ku, pos, pad);
            }
        }
    } }
}
}
void enum_norm(Sink &S) { en<d_t>(S); en<z_t>(S); en<s_t>(S); en<c_t>(S); }
