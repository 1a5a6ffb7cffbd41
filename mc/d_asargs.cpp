// C02, asynchronous part: every option and every descriptor argument of every asynchronous routine, made illegal in turn.
#include "omp.h"
#include <tuple>
using namespace mc;
namespace {
template<class T, class... A, size_t... I0> bool call_with(void (*f)(A...), std::tuple<A...> a, size_t k, int how, std::index_sequence<I0...>) {
    bool hit = false;
    auto fix = [&](size_t i, auto &v) {
        typedef std::decay_t<decltype(v)> V;
        if (i != k) return;
        if constexpr (std::is_same<V, int>::value) { hit = true; v = how == 0 ? -1 : how == 1 ? 0 : 100; }
        if constexpr (std::is_same<V, plasma_desc_t>::value) { hit = true; if (how == 0) v.mb = 0; else if (how == 1) v.precision = -1; else v.type = -1; }
    };
    (fix(I0, std::get<I0>(a)), ...);
    if (hit || k == 99) std::apply(f, a);
    return hit;
}
template<class T> struct Rt { const char *name; int nargs; std::vector<int> skip; std::function<bool(Pool<T> &, size_t, int, plasma_sequence_t *, plasma_request_t *)> f; };
template<class T> const std::vector<Rt<T>> &routines() {
    typedef Pool<T> P; typedef OMP<T> O; typedef typename Tr<T>::R R; static std::vector<Rt<T>> v; if (!v.empty()) return v;
    auto add = [&](const char *nm, std::vector<int> skip, auto fp, auto mkargs) {
        v.push_back({nm, 16, skip, [fp, mkargs](P &p, size_t k, int how, plasma_sequence_t *s, plasma_request_t *q) { auto t = std::tuple_cat(mkargs(p), std::make_tuple(s, q)); return [&]<class... A>(void (*f)(A...)) { std::tuple<A...> a(t); return call_with<T>(f, a, k, how, std::make_index_sequence<sizeof...(A)>()); }(fp); }});
    };
#define R_(nm, fn, skip, ...) add(nm, std::vector<int> skip, fn, [](P &p) { (void)p; return std::make_tuple(__VA_ARGS__); })
#define L (int)PlasmaLower
#define N (int)PlasmaNoTrans
    int nil = 0; (void)nil;
    R_("gemm", O::gemm, {}, N, N, T(1), p.A, p.B, T(1), p.C); R_("symm", O::symm, {}, (int)PlasmaLeft, L, T(1), p.H, p.B, T(1), p.C); R_("syrk", O::syrk, {}, L, N, T(1), p.A, T(1), p.C); R_("syr2k", O::syr2k, {}, L, N, T(1), p.A, p.B, T(1), p.C);
    if constexpr (Tr<T>::cx) { R_("hemm", OMPH<T>::hemm, {}, (int)PlasmaLeft, L, T(1), p.H, p.B, T(1), p.C); R_("herk", OMPH<T>::herk, {}, L, N, R(1), p.A, R(1), p.C); R_("her2k", OMPH<T>::her2k, {}, L, N, T(1), p.A, p.B, R(1), p.C); R_("lanhe", OMPH<T>::lanhe, {}, (int)PlasmaOneNorm, L, p.H, p.wk[0], p.val); }
    R_("trmm", O::trmm, {}, (int)PlasmaLeft, L, N, (int)PlasmaNonUnit, T(1), p.A, p.B); R_("trsm", O::trsm, {}, (int)PlasmaLeft, L, N, (int)PlasmaNonUnit, T(1), p.A, p.X); R_("gbmm", O::gbmm, {}, N, N, T(1), p.AB, p.B, T(1), p.C); R_("geadd", O::geadd, {}, N, T(1), p.A, T(1), p.B); R_("tradd", O::tradd, {}, L, N, T(1), p.A, T(1), p.C);
    R_("lacpy", O::lacpy, {}, (int)PlasmaGeneral, N, p.A, p.B); R_("lascl", O::lascl, {}, (int)PlasmaGeneral, R(2), R(1), p.A); R_("laset", O::laset, {}, (int)PlasmaGeneral, T(1), T(2), p.C); R_("geswp", O::geswp, {3}, (int)PlasmaRowwise, p.A, p.ipiv, 1);
    R_("lange", O::lange, {}, (int)PlasmaOneNorm, p.A, p.wk[0], p.val); R_("lansy", O::lansy, {}, (int)PlasmaOneNorm, L, p.H, p.wk[0], p.val); R_("lantr", O::lantr, {}, (int)PlasmaOneNorm, L, (int)PlasmaUnit, p.A, p.wk[0], p.val); R_("langb", O::langb, {}, (int)PlasmaOneNorm, p.AB, p.wk[0], p.val); R_("amax", O::amax, {}, (int)PlasmaColumnwise, p.A, p.wk[0], p.val);
    R_("potrf", O::potrf, {}, L, p.H); R_("potrs", O::potrs, {}, L, p.H, p.X); R_("posv", O::posv, {}, L, p.H, p.X); R_("potri", O::potri, {}, L, p.H); R_("poinv", O::poinv, {}, L, p.H); R_("lauum", O::lauum, {}, L, p.H); R_("trtri", O::trtri, {}, L, (int)PlasmaUnit, p.A); R_("pbtrf", O::pbtrf, {}, L, p.PB); R_("pbtrs", O::pbtrs, {}, L, p.PB, p.X); R_("pbsv", O::pbsv, {}, L, p.PB, p.X);
    R_("getrf", O::getrf, {}, p.A, p.ipiv); R_("getrs", O::getrs, {}, N, p.A, p.ipiv, p.X); R_("gesv", O::gesv, {}, p.A, p.ipiv, p.X); R_("getri", O::getri, {}, p.A, p.ipiv, p.W); R_("getri_aux", O::getri_aux, {}, p.A, p.W); R_("geinv", O::geinv, {}, p.A, p.ipiv, p.W); R_("gbtrf", O::gbtrf, {}, p.AB, p.ipiv); R_("gbtrs", O::gbtrs, {}, N, p.AB, p.ipiv, p.X); R_("gbsv", O::gbsv, {}, p.AB, p.ipiv, p.X);
    R_("geqrf", O::geqrf, {}, p.A, p.TQ, p.work); R_("gelqf", O::gelqf, {}, p.A, p.TQ, p.work); R_("geqrs", O::geqrs, {}, p.A, p.TQ, p.X, p.work); R_("gelqs", O::gelqs, {}, p.A, p.TQ, p.X, p.work); R_("gels", O::gels, {}, N, p.A, p.TQ, p.X, p.work); R_("ungqr", O::ungqr, {}, p.A, p.TQ, p.B, p.work); R_("unglq", O::unglq, {}, p.A, p.TQ, p.B, p.work); R_("unmqr", O::unmqr, {}, (int)PlasmaLeft, N, p.A, p.TQ, p.C, p.work); R_("unmlq", O::unmlq, {}, (int)PlasmaLeft, N, p.A, p.TQ, p.C, p.work);
    R_("hetrf", O::hetrf, {}, L, p.HI, p.ipiv, p.TD, p.ipiv2, p.WA); R_("hetrs", O::hetrs, {}, L, p.HI, p.ipiv, p.TD, p.ipiv2, p.X); R_("hesv", O::hesv, {}, L, p.HI, p.ipiv, p.TD, p.ipiv2, p.X, p.WA); R_("gesdd", O::gesdd, (std::vector<int>{6, 8}), (int)PlasmaNoVec, (int)PlasmaNoVec, p.A, p.TQ, p.S, p.U, p.n, p.V, p.n, p.work);
    R_("ge2desc", O::ge2desc, {1}, p.F, p.n + 1, p.A); R_("desc2ge", O::desc2ge, {2}, p.A, p.F, p.n + 1); R_("tr2desc", O::tr2desc, {1}, p.FT, p.n + 1, p.TR); R_("desc2tr", O::desc2tr, {2}, p.TR, p.FT, p.n + 1); R_("pb2desc", O::pb2desc, {1}, p.FB, 3 * p.nb, p.PB); R_("desc2pb", O::desc2pb, {2}, p.PB, p.FB, 3 * p.nb); R_("gb2desc", O::gb2desc, {1}, p.FT, p.n + 1, p.AB);
    if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) { typedef OMPM<T> M;
        R_("lag2", M::lag2, {}, p.A, p.AS); R_("lagd", M::lagd, {}, p.AS, p.A); R_("mixed gesv", M::gesv, {}, p.A, p.ipiv, p.X, p.XM, p.AS, p.XS, p.RS, p.dwk[0], p.nrm1, p.nrm2, p.iter); R_("mixed posv", M::posv, {}, L, p.H, p.X, p.XM, p.AS, p.XS, p.RS, p.dwk[0], p.nrm1, p.nrm2, p.iter); R_("mixed gbsv", M::gbsv, {}, p.AB, p.ipiv, p.X, p.XM, p.ABS, p.XS, p.RS, p.dwk[0], p.nrm1, p.nrm2, p.iter); }
#undef R_
#undef L
#undef N
    return v;
}
template<class T> void refused(Cx &c, const Rt<T> &r, size_t k, int how) {
    Pool<T> p(5, 2, c.env, 7); if (!p.err.empty()) { c.badf(OTHER, "%s", p.err.c_str()); return; }
    plasma_sequence_t *s = (plasma_sequence_t *)ualloc(sizeof *s, "sequence"); plasma_request_t *q = (plasma_request_t *)ualloc(sizeof *q, "request"); plasma_sequence_init(s); plasma_request_init(q);
    auto b = p.bits(); bool hit = false; in_parallel([&] { hit = r.f(p, k, how, s, q); });
    if (hit) {
        if (q->status != PlasmaErrorIllegalValue && q->status != PlasmaErrorNotSupported) c.badf(RC, "%s with illegal argument %zu sets the request to %d", r.name, k + 1, q->status);
        else if (s->status != q->status || s->request != q) c.badf(RC, "%s with illegal argument %zu does not fail the sequence", r.name, k + 1);
        std::string d = p.differs(b); if (!d.empty()) c.badf(NUM, "%s with illegal argument %zu modifies %s", r.name, k + 1, d.c_str());
    }
    p.destroy();
}
// no sequence or no request: refused, or the program is ended with a message
template<class T> void none(Cx &c, const Rt<T> &r, bool seq) {
    Pool<T> p(5, 2, c.env, 7); if (!p.err.empty()) { c.badf(OTHER, "%s", p.err.c_str()); return; }
    plasma_sequence_t *s = (plasma_sequence_t *)ualloc(sizeof *s, "sequence"); plasma_request_t *q = (plasma_request_t *)ualloc(sizeof *q, "request"); plasma_sequence_init(s); plasma_request_init(q);
    auto b = p.bits(); in_parallel([&] { r.f(p, 99, 0, seq ? nullptr : s, seq ? q : nullptr); });
    std::string d = p.differs(b); if (!d.empty()) c.badf(NUM, "%s without a %s modifies %s", r.name, seq ? "sequence" : "request", d.c_str());
    p.destroy();
}
template<class T> void en(Sink &S) {
    Env e; e.nb = 2; e.ib = 1; auto &v = routines<T>();
    for (auto &r : v) for (int k = 0; k < 2; k++) { const Rt<T> *x = &r; if (S.mine()) S.add(e, [=](Cx &c) { none<T>(c, *x, k); }, "%casync_%s without %s", Tr<T>::p, r.name, k ? "sequence" : "request"); }
    for (auto &r : v) for (int k = 0; k < 10; k++) for (int how = 0; how < 3; how++) { bool sk = false; for (int x : r.skip) sk |= x == k; if (sk) continue; const Rt<T> *x = &r; if (S.mine()) S.add(e, [=](Cx &c) { refused<T>(c, *x, k, how); }, "%casync_%s argument %d, %d", Tr<T>::p, r.name, k + 1, how); }
}
}
void enum_async_args(Sink &S) { en<z_t>(S); en<d_t>(S); en<s_t>(S); en<c_t>(S); }
