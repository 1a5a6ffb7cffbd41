// Calls with illegal arguments: every argument, every pair and triple of arguments, and calls before plasma_init.
#include "h.h"
#include "dat.h"
namespace {
struct Arg { int pos, good; std::vector<int> bad; };
typedef std::vector<Arg> Args;
struct V { int v[16]; int operator[](int i) const { return v[i]; } };
typedef std::function<double(Cx &, const V &)> Call;
static Arg dim(int p, int g) { return {p, g, {-1, INT_MIN}}; }
static Arg ldm(int p, int need) { Arg a{p, need + 1, {0, -1}}; if (need > 1) a.bad.push_back(need - 1); a.good = std::max(1, need) + 1; return a; }
static Arg en(int p, int g, std::vector<int> extra = {}) { Arg a{p, g, {0, -1, PlasmaW}}; for (int e : extra) a.bad.push_back(e); return a; }
static Arg rg(int p, int g, std::vector<int> bad) { return {p, g, bad}; }
struct Gen {
    Sink &S; char t; bool init; struct Sh { int m, n, k; } sh;
    void one(const std::string &nm, const std::string &cfg, const Args &as, const std::vector<std::pair<int, int>> &ch, Call f) {
        V v; for (auto &x : v.v) x = 0; for (auto &a : as) v.v[a.pos] = a.good; int first = 99; std::string d;
        for (auto &c : ch) { v.v[as[c.first].pos] = as[c.first].bad[c.second]; first = std::min(first, as[c.first].pos); d += (d.empty() ? "" : ",") + std::to_string(as[c.first].pos) + "=" + std::to_string(as[c.first].bad[c.second]); }
        Env e; e.nb = 2; e.ib = 1; bool in = init; e.raw = !in; int want = in ? -first : PlasmaErrorNotInitialized;
        ADD(S, e, ([=](Cx &c) {
            double r = f(c, v); if (c.rc != want && r == r) c.badf(RC, "returned %d, expected %d", c.rc, want); }), "%s %s%s %s", nm.c_str(), cfg.c_str(), in ? "" : " uninitialized", d.c_str());
    }
    void go(const std::string &nm, const std::string &cfg0, const Args &as, Call f) {
        std::string cfg = cfg0; if (sh.m != 5 || sh.n != 4 || sh.k != 3) cfg += " " + std::to_string(sh.m) + "x" + std::to_string(sh.n) + "x" + std::to_string(sh.k);
        if (S.grid == G_TUNE) {
            V v; for (auto &x : v.v) x = 0; for (auto &a : as) v.v[a.pos] = a.good; Env e; e.raw = true;
            ADD(S, e, ([=](Cx &c) { for (int i = 0; i < 16; i++) c.outs.push_back({"arg", std::to_string(v.v[i])}); if (c.extra) return; f(c, v); }), "%s %s", nm.c_str(), cfg.c_str());
            return;
        }
        if (!init) { one(nm, cfg, as, {}, f); return; }
        int n = (int)as.size();
        for (int i = 0; i < n; i++) for (int a = 0; a < (int)as[i].bad.size(); a++) {
            one(nm, cfg, as, {{i, a}}, f);
            if (a == 0) for (int j = i + 1; j < n; j++) { one(nm, cfg, as, {{i, 0}, {j, 0}}, f); if (S.tier) for (int k = j + 1; k < n; k++) one(nm, cfg, as, {{i, 0}, {j, 0}, {k, 0}}, f); }
        }
    }
};
template<class T> T *mat(Cx &c, const char *nm) { auto A = c.in<T>(nm, 24, 8, 1); c.fill_uni(A); return A.p; }
template<class T> T *mo(Cx &c, const char *nm) { return mat<T>(c, nm); }
static int *iv(Cx &c, const char *nm) { auto P = c.ints(nm, 8, false); for (int i = 0; i < 8; i++) P.p[i] = i + 1; return P.p; }
static plasma_desc_t *dsc(Cx &c, const char *nm) { auto P = c.ints(nm, sizeof(plasma_desc_t) / 4, false); memset(P.p, 0, sizeof(plasma_desc_t)); return (plasma_desc_t *)P.p; }
static plasma_desc_t noT() { plasma_desc_t d; memset(&d, 0, sizeof d); return d; }
#define CALL(expr) [=](Cx &c, const V &v) -> double
typedef Gen::Sh Shape;
template<class T> void run(Sink &S, bool init, Shape sh) {
    typedef API<T> L; typedef typename Tr<T>::R R; char p = Tr<T>::p; std::string P(1, p), U = Tr<T>::cx ? "un" : "or", H = Tr<T>::cx ? "he" : "sy";
    Gen g{S, p, init, sh}; const int N = PlasmaNoTrans, m = sh.m, n = sh.n, k = sh.k; const bool base = m == 5 && k == 3 && n == 4, ordered = m >= n && n >= k, zero = m == 0 || n == 0; T al = mk<T>(Z(2)), be = mk<T>(Z(3));
    auto IC = [](Cx &c, std::function<int()> f) { c.call(f, "call"); return 0.0; };
    // norms return the code as a value
    auto DC = [](Cx &c, std::function<double()> f) { double r = c.dcall(f, "call"); c.rc = (int)r; return 0.0; };
    for (int ta : transes<T>()) for (int tb : transes<T>()) {
        std::string cfg{tc(ta), tc(tb)};
        g.go(P + "gemm", cfg, {en(1, ta), en(2, tb), dim(3, m), dim(4, n), dim(5, k), ldm(8, ta == N ? m : k), ldm(10, tb == N ? k : n), ldm(13, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return L::gemm(v[1], v[2], v[3], v[4], v[5], al, a, v[8], b, v[10], be, d, v[13]); }); });
        if (tb == N && m > 2 && k > 2) g.go(P + "gbmm", cfg, {en(1, ta), en(2, tb), dim(3, m), dim(4, n), dim(5, k), rg(6, 1, {-1, ta == N ? m : k}), rg(7, 1, {-1, ta == N ? k : m}), ldm(10, ta == N ? m : k), ldm(12, k), ldm(15, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return L::gbmm(v[1], v[2], v[3], v[4], v[5], v[6], v[7], al, a, v[10], b, v[12], be, d, v[15]); }); });
    }
    for (int s : SIDES) for (int u : UPLOS) {
        std::string cfg{sc(s), uc(u)}; int am = s == PlasmaLeft ? m : n;
        Args as{en(1, s), en(2, u, {PlasmaGeneral}), dim(3, m), dim(4, n), ldm(7, am), ldm(9, m), ldm(12, m)};
        g.go(P + "symm", cfg, as, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return L::symm(v[1], v[2], v[3], v[4], al, a, v[7], b, v[9], be, d, v[12]); }); });
        if constexpr (Tr<T>::cx) g.go(P + "hemm", cfg, as, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return APIH<T>::hemm(v[1], v[2], v[3], v[4], al, a, v[7], b, v[9], be, d, v[12]); }); });
        for (int ta : transes<T>()) for (int dg : DIAGS) for (int w = 0; w < 2; w++) g.go(P + (w ? "trsm" : "trmm"), cfg + tc(ta) + (dg == PlasmaUnit ? "U" : "N"), {en(1, s), en(2, u, {PlasmaGeneral}), en(3, ta), en(4, dg), dim(5, m), dim(6, n), ldm(9, am), ldm(11, m)},
            [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return (w ? L::trsm : L::trmm)(v[1], v[2], v[3], v[4], v[5], v[6], al, a, v[9], b, v[11]); }); });
        for (int q : {N, CT<T>()}) for (int w = 0; w < 2; w++) { int aw = s == PlasmaLeft ? m : n; std::vector<int> ex; if (Tr<T>::cx) ex.push_back(PlasmaTrans);
            if (u == PlasmaUpper && ordered) g.go(P + U + (w ? "mlq" : "mqr"), std::string{sc(s), tc(q)}, {en(1, s), en(2, q, ex), dim(3, m), dim(4, n), rg(5, k, {-1, aw + 1}), ldm(7, w ? k : aw), ldm(10, m)},
            [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *d = mo<T>(c, "C"); return IC(c, [=] { return (w ? L::unmlq : L::unmqr)(v[1], v[2], v[3], v[4], v[5], a, v[7], noT(), d, v[10]); }); }); }
    }
    for (int u : UPLOS) {
        std::string cu(1, uc(u));
        for (int t : {N, (int)PlasmaTrans}) { std::vector<int> ex; if (Tr<T>::cx) ex.push_back(PlasmaConjTrans); int am = t == N ? n : k; Args a1{en(1, u, {PlasmaGeneral}), en(2, t, ex), dim(3, n), dim(4, k), ldm(7, am), ldm(10, n)}, a2{en(1, u, {PlasmaGeneral}), en(2, t, ex), dim(3, n), dim(4, k), ldm(7, am), ldm(9, am), ldm(12, n)};
            g.go(P + "syrk", cu + tc(t), a1, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *d = mo<T>(c, "C"); return IC(c, [=] { return L::syrk(v[1], v[2], v[3], v[4], al, a, v[7], be, d, v[10]); }); });
            g.go(P + "syr2k", cu + tc(t), a2, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return L::syr2k(v[1], v[2], v[3], v[4], al, a, v[7], b, v[9], be, d, v[12]); }); }); }
        if constexpr (Tr<T>::cx) for (int t : {N, (int)PlasmaConjTrans}) { int am = t == N ? n : k; Args a1{en(1, u, {PlasmaGeneral}), en(2, t, {PlasmaTrans}), dim(3, n), dim(4, k), ldm(7, am), ldm(10, n)}, a2{en(1, u, {PlasmaGeneral}), en(2, t, {PlasmaTrans}), dim(3, n), dim(4, k), ldm(7, am), ldm(9, am), ldm(12, n)};
            g.go(P + "herk", cu + tc(t), a1, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *d = mo<T>(c, "C"); return IC(c, [=] { return APIH<T>::herk(v[1], v[2], v[3], v[4], 2, a, v[7], 3, d, v[10]); }); });
            g.go(P + "her2k", cu + tc(t), a2, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mat<T>(c, "B"), *d = mo<T>(c, "C"); return IC(c, [=] { return APIH<T>::her2k(v[1], v[2], v[3], v[4], al, a, v[7], b, v[9], 3, d, v[12]); }); }); }
        for (int t : transes<T>()) { int am = t == N ? m : n;
            if (u == PlasmaUpper) g.go(P + "geadd", std::string(1, tc(t)), {en(1, t), dim(2, m), dim(3, n), ldm(6, am), ldm(9, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return L::geadd(v[1], v[2], v[3], al, a, v[6], be, b, v[9]); }); });
            g.go(P + "tradd", cu + tc(t), {en(1, u, {PlasmaGeneral}), en(2, t), dim(3, m), dim(4, n), ldm(7, am), ldm(10, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return L::tradd(v[1], v[2], v[3], v[4], al, a, v[7], be, b, v[10]); }); });
        }
        g.go(P + "lansy", cu, {en(1, PlasmaOneNorm, {PlasmaTwoNorm}), en(2, u, {PlasmaGeneral}), dim(3, n), ldm(5, n)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"); return DC(c, [=] { return (double)L::lansy(v[1], v[2], v[3], a, v[5]); }); });
        if constexpr (Tr<T>::cx) g.go(P + "lanhe", cu, {en(1, PlasmaOneNorm, {PlasmaTwoNorm}), en(2, u, {PlasmaGeneral}), dim(3, n), ldm(5, n)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"); return DC(c, [=] { return (double)APIH<T>::lanhe(v[1], v[2], v[3], a, v[5]); }); });
        for (int d : DIAGS) g.go(P + "lantr", cu + (d == PlasmaUnit ? "U" : "N"), {en(1, PlasmaInfNorm, {PlasmaTwoNorm}), en(2, u, {PlasmaGeneral}), en(3, d), dim(4, m), dim(5, n), ldm(7, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"); return DC(c, [=] { return (double)L::lantr(v[1], v[2], v[3], v[4], v[5], a, v[7]); }); });
        Args an{en(1, u, {PlasmaGeneral}), dim(2, n), ldm(4, n)};
        g.go(P + "potrf", cu, an, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::potrf(v[1], v[2], a, v[4]); }); });
        g.go(P + "potri", cu, an, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::potri(v[1], v[2], a, v[4]); }); });
        g.go(P + "poinv", cu, an, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::poinv(v[1], v[2], a, v[4]); }); });
        g.go(P + "lauum", cu, an, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::lauum(v[1], v[2], a, v[4]); }); });
        for (int d : DIAGS) g.go(P + "trtri", cu + (d == PlasmaUnit ? "U" : "N"), {en(1, u, {PlasmaGeneral}), en(2, d), dim(3, n), ldm(5, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::trtri(v[1], v[2], v[3], a, v[5]); }); });
        Args av{en(1, u, {PlasmaGeneral}), dim(2, n), dim(3, k), ldm(5, n), ldm(7, n)};
        g.go(P + "potrs", cu, av, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return L::potrs(v[1], v[2], v[3], a, v[5], b, v[7]); }); });
        g.go(P + "posv", cu, av, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return L::posv(v[1], v[2], v[3], a, v[5], b, v[7]); }); });
        g.go(P + "pbtrf", cu, {en(1, u, {PlasmaGeneral}), dim(2, n), dim(3, 2), ldm(5, 3)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "AB"); return IC(c, [=] { return L::pbtrf(v[1], v[2], v[3], a, v[5]); }); });
        Args ab{en(1, u, {PlasmaGeneral}), dim(2, n), dim(3, 2), dim(4, k), ldm(6, 3), ldm(8, n)};
        for (int w = 0; w < 2; w++) g.go(P + (w ? "pbsv" : "pbtrs"), cu, ab, [=](Cx &c, const V &v) { T *a = mo<T>(c, "AB"), *b = mo<T>(c, "B"); return IC(c, [=] { return (w ? L::pbsv : L::pbtrs)(v[1], v[2], v[3], v[4], a, v[6], b, v[8]); }); });
    }
    for (int u : {(int)PlasmaGeneral, (int)PlasmaUpper, (int)PlasmaLower}) {
        std::string cu(1, uc(u));
        for (int t : transes<T>()) g.go(P + "lacpy", cu + tc(t), {en(1, u), en(2, t), dim(3, n), dim(4, n), ldm(6, n), ldm(8, n)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return L::lacpy(v[1], v[2], v[3], v[4], a, v[6], b, v[8]); }); });
        g.go(P + "laset", cu, {en(1, u), dim(2, m), dim(3, n), ldm(7, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::laset(v[1], v[2], v[3], al, be, a, v[7]); }); });
        g.go(P + "lascl", cu, {en(1, u), rg(2, 2, {0, 99}), rg(3, 3, {99}), dim(4, m), dim(5, n), ldm(7, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); R f = v[2] == 99 ? (R)NAN : (R)v[2], t2 = v[3] == 99 ? (R)NAN : (R)v[3]; return IC(c, [=] { return L::lascl(v[1], f, t2, v[4], v[5], a, v[7]); }); });
    }
    for (int cr : {(int)PlasmaColumnwise, (int)PlasmaRowwise}) {
        std::string cc = cr == PlasmaColumnwise ? "C" : "R";
        g.go(P + "geswp", cc, {en(1, cr), dim(2, m), dim(3, n), ldm(5, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::geswp(v[1], v[2], v[3], a, v[5], q, 1); }); });
        g.go(P + "amax", cc, {en(1, cr), dim(2, m), dim(3, n), ldm(5, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"); R *w = (R *)mat<R>(c, "values"); return IC(c, [=] { return L::amax(v[1], v[2], v[3], a, v[5], w); }); });
    }
    g.go(P + "lange", "", {en(1, PlasmaMaxNorm, {PlasmaTwoNorm}), dim(2, m), dim(3, n), ldm(5, m)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"); return DC(c, [=] { return (double)L::lange(v[1], v[2], v[3], a, v[5]); }); });
    g.go(P + "langb", "", {en(1, PlasmaMaxNorm, {PlasmaTwoNorm}), dim(2, m), dim(3, n), dim(4, 1), dim(5, 2), ldm(7, 4)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "AB"); return DC(c, [=] { return (double)L::langb(v[1], v[2], v[3], v[4], v[5], a, v[7]); }); });
    // LU
    g.go(P + "getrf", "", {dim(1, m), dim(2, n), ldm(4, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::getrf(v[1], v[2], a, v[4], q); }); });
    g.go(P + "geinv", "", {dim(1, n), dim(2, n), ldm(4, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::geinv(v[1], v[2], a, v[4], q); }); });
    g.go(P + "getri", "", {dim(1, n), ldm(3, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::getri(v[1], a, v[3], q); }); });
    g.go(P + "getri_aux", "", {dim(1, n), ldm(3, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); return IC(c, [=] { return L::getri_aux(v[1], a, v[3]); }); });
    g.go(P + "gesv", "", {dim(1, n), dim(2, k), ldm(4, n), ldm(7, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *b = mo<T>(c, "B"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::gesv(v[1], v[2], a, v[4], q, b, v[7]); }); });
    for (int t : transes<T>()) {
        g.go(P + "getrs", std::string(1, tc(t)), {en(1, t), dim(2, n), dim(3, k), ldm(5, n), ldm(8, n)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::getrs(v[1], v[2], v[3], a, v[5], q, b, v[8]); }); });
        g.go(P + "gbtrs", std::string(1, tc(t)), {en(1, t), dim(2, n), dim(3, 2), dim(4, 1), dim(5, k), ldm(7, 4), ldm(10, n)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "AB"), *b = mo<T>(c, "B"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::gbtrs(v[1], v[2], v[3], v[4], v[5], a, v[7] < 4 ? v[7] : 24, q, b, v[10]); }); });
    }
    g.go(P + "gbtrf", "", {dim(1, n), dim(2, n), dim(3, 2), dim(4, 1), ldm(6, 4)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "AB"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::gbtrf(v[1], v[2], v[3], v[4], a, v[6] < 4 ? v[6] : 24, q); }); });
    g.go(P + "gbsv", "", {dim(1, n), dim(2, 2), dim(3, 1), dim(4, k), ldm(6, 4), ldm(9, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "AB"), *b = mo<T>(c, "B"); int *q = iv(c, "ipiv"); return IC(c, [=] { return L::gbsv(v[1], v[2], v[3], v[4], a, v[6] < 4 ? v[6] : 24, q, b, v[9]); }); });
    // QR / LQ
    if (!ordered) return;
    for (int w = 0; w < 2; w++) {
        g.go(P + (w ? "gelqf" : "geqrf"), "", {dim(1, m), dim(2, n), ldm(4, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); plasma_desc_t *t = dsc(c, "T"); return IC(c, [=] { return (w ? L::gelqf : L::geqrf)(v[1], v[2], a, v[4], t); }); });
        int mm = w ? n : m, nn = w ? m : n;
        g.go(P + (w ? "gelqs" : "geqrs"), "", {dim(1, mm), rg(2, nn, w ? std::vector<int>{-1, mm - 1} : std::vector<int>{-1, mm + 1}), dim(3, k), ldm(5, mm), ldm(8, std::max(mm, nn))}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "B"); return IC(c, [=] { return (w ? L::gelqs : L::geqrs)(v[1], v[2], v[3], a, v[5], noT(), b, v[8]); }); });
        g.go(P + U + (w ? "glq" : "gqr"), "", {dim(1, mm), rg(2, nn, w ? std::vector<int>{-1, mm - 1} : std::vector<int>{-1, mm + 1}), rg(3, k, {-1, std::min(mm, nn) + 1}), ldm(5, mm), ldm(8, mm)}, [=](Cx &c, const V &v) { T *a = mat<T>(c, "A"), *b = mo<T>(c, "Q"); return IC(c, [=] { return (w ? L::unglq : L::ungqr)(v[1], v[2], v[3], a, v[5], noT(), b, v[8]); }); });
    }
    for (int t : {N, CT<T>()}) for (int w = 0; w < 2; w++) { int mm = w ? n : m, nn = w ? m : n; std::vector<int> ex; if (Tr<T>::cx) ex.push_back(PlasmaTrans);
        g.go(P + "gels", std::string{tc(t), w ? 'w' : 't'}, {en(1, t, ex), dim(2, mm), dim(3, nn), dim(4, k), ldm(6, mm), ldm(9, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *b = mo<T>(c, "B"); plasma_desc_t *d = dsc(c, "T"); return IC(c, [=] { return L::gels(v[1], v[2], v[3], v[4], a, v[6], d, b, v[9]); }); }); }
    // Aasen
    g.go(P + H + "trf", "", {en(1, PlasmaLower, {PlasmaGeneral}), dim(2, n), ldm(4, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *t = mo<T>(c, "T"); int *q = iv(c, "ipiv"), *q2 = iv(c, "ipiv2"); return IC(c, [=] { return L::hetrf(v[1], v[2], a, v[4], q, t, 24, q2); }); });
    for (int w = 0; w < 2; w++) g.go(P + H + (w ? "sv" : "trs"), "", {en(1, PlasmaLower, {PlasmaGeneral}), dim(2, n), dim(3, k), ldm(5, n), ldm(11, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *t = mo<T>(c, "T"), *b = mo<T>(c, "B"); int *q = iv(c, "ipiv"), *q2 = iv(c, "ipiv2"); return IC(c, [=] { return (w ? L::hesv : L::hetrs)(v[1], v[2], v[3], a, v[5], q, t, 24, q2, b, v[11]); }); });
    // SVD and eigenvalues
    if (zero) return;
    for (int j : {(int)PlasmaNoVec, (int)PlasmaSomeVec, (int)PlasmaAllVec}) {
        Args as{en(1, j, {PlasmaVec}), en(2, j, {PlasmaVec, j == PlasmaNoVec ? PlasmaAllVec : PlasmaNoVec}), dim(3, m), dim(4, n), ldm(6, m), ldm(10, j == PlasmaNoVec ? 1 : m), ldm(12, j == PlasmaNoVec ? 1 : n)};
        g.go(P + "gesdd", j == PlasmaNoVec ? "N" : j == PlasmaSomeVec ? "S" : "A", as, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *u = mo<T>(c, "U"), *vt = mo<T>(c, "VT"); R *s = (R *)mat<R>(c, "S"); plasma_desc_t *t = dsc(c, "T"); return IC(c, [=] { return L::gesdd(v[1], v[2], v[3], v[4], a, v[6], t, s, u, v[10], vt, v[12]); }); });
    }
    if constexpr (!Tr<T>::cx) for (int rgi = 0; rgi < 2; rgi++) for (int job : {(int)PlasmaVec, (int)PlasmaNoVec, (int)PlasmaCount}) {
        Args as{en(1, job, {PlasmaAllVec}), en(2, rgi ? PlasmaRangeI : PlasmaRangeV, {PlasmaRangeAll}), dim(3, 5), rg(5, 1, {0}), rg(6, 1, {0})};
        if (!rgi) as.push_back(rg(7, -9, {9, 10})); else { as.push_back(rg(9, 2, {0, 6})); as.push_back(rg(10, 4, {1, 6, -1})); }
        as.push_back(rg(11, 1, {0}));
        if (job != PlasmaCount) { as.push_back(rg(12, 1, {0})); as.push_back(rg(13, 1, {0})); } if (job == PlasmaVec) as.push_back(rg(14, 1, {0}));
        g.go(P + "stevx2", std::string(rgi ? "I" : "V") + std::to_string(job), as, [=](Cx &c, const V &v) {
            T *d = mat<T>(c, "diag"), *o = mat<T>(c, "offd"), *val = mo<T>(c, "val"), *vec = mo<T>(c, "vec"); int *f = iv(c, "found"), *mu = iv(c, "mul");
            return IC(c, [=] { T vl = rgi ? 0 : (T)v[7], vu = rgi ? 0 : 9; int rc; 
                if constexpr (sizeof(T) == 4) rc = plasma_sstevx2(v[1], v[2], v[3], 5, v[5] ? d : nullptr, v[6] ? o : nullptr, vl, vu, v[9], v[10], v[11] ? f : nullptr, v[12] ? val : nullptr, v[13] ? mu : nullptr, v[14] ? vec : nullptr);
                else rc = plasma_dstevx2(v[1], v[2], v[3], 5, v[5] ? d : nullptr, v[6] ? o : nullptr, vl, vu, v[9], v[10], v[11] ? f : nullptr, v[12] ? val : nullptr, v[13] ? mu : nullptr, v[14] ? vec : nullptr); return rc; }); });
    }
}
template<class T, class L> void mixed(Sink &S, bool init, Shape sh) {
    char p = Tr<T>::p; Gen g{S, p, init, sh}; std::string P = Tr<T>::cx ? "zc" : "ds"; const int m = sh.m, n = sh.n, k = sh.k; const bool zero = n == 0;
    auto IC = [](Cx &c, std::function<int()> f) { c.call(f, "call"); return 0.0; };
    g.go(P + "gesv", "", {dim(1, n), dim(2, k), ldm(4, n), ldm(7, n), ldm(9, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *b = mo<T>(c, "B"), *x = mo<T>(c, "X"); int *q = iv(c, "ipiv"), *it = iv(c, "iter"); return IC(c, [=]() -> int { if constexpr (Tr<T>::cx) return plasma_zcgesv(v[1], v[2], a, v[4], q, b, v[7], x, v[9], it); else return plasma_dsgesv(v[1], v[2], a, v[4], q, b, v[7], x, v[9], it); }); });
    for (int u : UPLOS) g.go(P + "posv", std::string(1, uc(u)), {en(1, u, {PlasmaGeneral}), dim(2, n), dim(3, k), ldm(5, n), ldm(7, n), ldm(9, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"), *b = mo<T>(c, "B"), *x = mo<T>(c, "X"); int *it = iv(c, "iter"); return IC(c, [=]() -> int { if constexpr (Tr<T>::cx) return plasma_zcposv(v[1], v[2], v[3], a, v[5], b, v[7], x, v[9], it); else return plasma_dsposv(v[1], v[2], v[3], a, v[5], b, v[7], x, v[9], it); }); });
    g.go(P + "gbsv", "", {dim(1, n), dim(2, 2), dim(3, 1), dim(4, k), ldm(6, 4), ldm(9, n), ldm(11, n)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "AB"), *b = mo<T>(c, "B"), *x = mo<T>(c, "X"); int *q = iv(c, "ipiv"), *it = iv(c, "iter"); int l = v[6] < 4 ? v[6] : 24; return IC(c, [=]() -> int { if constexpr (Tr<T>::cx) return plasma_zcgbsv(v[1], v[2], v[3], v[4], a, l, q, b, v[9], x, v[11], it); else return plasma_dsgbsv(v[1], v[2], v[3], v[4], a, l, q, b, v[9], x, v[11], it); }); });
    g.go(Tr<T>::cx ? "zlag2c" : "dlag2s", "", {dim(1, m), dim(2, n), ldm(4, m), ldm(6, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); L *b = mo<L>(c, "As"); return IC(c, [=]() -> int { if constexpr (Tr<T>::cx) return plasma_zlag2c(v[1], v[2], a, v[4], b, v[6]); else return plasma_dlag2s(v[1], v[2], a, v[4], b, v[6]); }); });
    g.go(Tr<T>::cx ? "clag2z" : "slag2d", "", {dim(1, m), dim(2, n), ldm(4, m), ldm(6, m)}, [=](Cx &c, const V &v) { T *a = mo<T>(c, "A"); L *b = mo<L>(c, "As"); return IC(c, [=]() -> int { if constexpr (Tr<T>::cx) return plasma_clag2z(v[1], v[2], b, v[4], a, v[6]); else return plasma_slag2d(v[1], v[2], b, v[4], a, v[6]); }); });
}
}
void enum_args(Sink &S) {
    S.fam = "args";
    // other orders of the dimensions, and empty operands: an illegal argument is illegal in any shape
    static const Shape shapes[] = {{5, 4, 3}, {3, 5, 4}, {4, 3, 5}, {3, 4, 5}, {5, 3, 4}, {4, 5, 3}, {4, 4, 4}, {5, 4, 0}, {5, 0, 0}, {5, 0, 3}, {0, 4, 3}, {1, 1, 1}, {0, 0, 0}};
    for (const Shape &sh : shapes) for (bool init : {true, false}) {
        if ((!init || sh.m != 5 || sh.n != 4 || sh.k != 3) && (S.grid == G_HIST || S.grid == G_TUNE)) continue;
        run<s_t>(S, init, sh); run<d_t>(S, init, sh); run<c_t>(S, init, sh); run<z_t>(S, init, sh); mixed<d_t, s_t>(S, init, sh); mixed<z_t, c_t>(S, init, sh);
    }
}
