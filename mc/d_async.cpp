// S08: chained asynchronous calls act as if executed one after another.
#include "omp.h"
using namespace mc;
namespace {
typedef std::vector<int> Hist;
struct Status { plasma_sequence_t *seq; plasma_request_t *rq; };
Status statuses(int k) { Status s; s.seq = (plasma_sequence_t *)ualloc(sizeof(plasma_sequence_t), "sequence"); s.rq = (plasma_request_t *)ualloc(sizeof(plasma_request_t) * k, "requests"); plasma_sequence_init(s.seq); for (int i = 0; i < k; i++) plasma_request_init(&s.rq[i]); return s; }
template<class T> std::string hist_name(const Hist &h) { std::string s; for (size_t i = 0; i < h.size(); i++) s += (i ? "; " : "") + std::string(async_ops<T>()[h[i]].name); return s; }
// the history on one pool without waiting, and on an equal one with a region per call
template<class T> void chained(Cx &c, const Hist &h, int n, int r) {
    auto &ops = async_ops<T>(); Pool<T> p(n, r, c.env, 77), q(n, r, c.env, 77); Status a = statuses((int)h.size()), b = statuses((int)h.size());
    if (!p.err.empty() || !q.err.empty()) { c.badf(OTHER, "%s", p.err.c_str()); return; }
    in_parallel([&] { for (size_t i = 0; i < h.size(); i++) ops[h[i]].f(p, (int)i, a.seq, &a.rq[i]); });
    for (size_t i = 0; i < h.size(); i++) in_parallel([&] { ops[h[i]].f(q, (int)i, b.seq, &b.rq[i]); });
    if (!b.seq->status) {
        if (a.seq->status) c.badf(RC, "the sequence failed with %d, one after another it succeeds", a.seq->status);
        else { std::string d = p.differs(q.bits()); if (!d.empty()) c.badf(NUM, "%s differs from the calls made one after another", d.c_str()); }
        auto v = p.bits(); for (size_t i = 0; i < v.size(); i++) c.outs.push_back({p.mem[i].first, v[i]});
    } else if (!a.seq->status) c.badf(RC, "the sequence succeeded, one after another it fails with %d", b.seq->status);
    else { bool own = false; for (size_t i = 0; i < h.size(); i++) own |= a.seq->request == &a.rq[i] && a.rq[i].status == a.seq->status; if (!own) c.badf(RC, "the sequence's status %d is not the one of its failed request", a.seq->status); c.outv("failed", "x", 1); }
    p.destroy(); q.destroy();
}
template<class T> void en_pairs(Sink &S, const Env &e, int n, int r, const std::function<bool(int, int)> &take) {
    int k = (int)async_ops<T>().size();
    for (int i = 0; i < k; i++) for (int j = 0; j < k; j++) if (take(i, j)) { Hist h = {i, j}; if (S.mine()) S.add(e, [=](Cx &c) { chained<T>(c, h, n, r); }, "%cchain n%d: %s", Tr<T>::p, n, hist_name<T>(h).c_str()); }
}
template<class T> std::vector<int> main_ops() {
    static const char *M[] = {"gemm C=AB", "gemm B=A'C", "symm C=HB", "trmm B=AB", "trsm X=A\\X", "geadd B+=A", "tradd C+=A", "lacpy B=A", "lascl A", "laset C", "geswp A rows", "lange A one", "potrf H", "posv H X", "poinv H", "trtri A", "getrf A", "getrs A X", "gesv B X", "getri A", "gbsv AB X", "geqrf A", "unmqr A C", "gels A X", "gelqf A", "hesv I X", "gesdd B", "ge2desc A", "desc2ge A", "mixed gesv"};
    std::vector<int> v; auto &o = async_ops<T>(); for (auto m : M) for (size_t i = 0; i < o.size(); i++) if (!strcmp(o[i].name, m)) v.push_back((int)i); return v;
}
template<class T> void en_triples(Sink &S, const Env &e, int n, int r, int stride) {
    auto m = main_ops<T>(); long k = 0;
    for (int i : m) for (int j : m) for (int l : m) if (k++ % stride == 0) { Hist h = {i, j, l}; if (S.mine()) S.add(e, [=](Cx &c) { chained<T>(c, h, n, r); }, "%cchain n%d: %s", Tr<T>::p, n, hist_name<T>(h).c_str()); }
}
// two routines with multi-threaded panels at the same time
template<class T> void en_panels(Sink &S, int n, int npt) {
    static const char *M[] = {"getrf A", "getrf C", "getrf G", "gbtrf AB", "hetrf I"};
    auto &o = async_ops<T>(); std::vector<int> v; for (auto m : M) for (size_t i = 0; i < o.size(); i++) if (!strcmp(o[i].name, m)) v.push_back((int)i);
    Env e; e.nb = 2; e.ib = 1; e.npt = npt;
    for (int i : v) for (int j : v) { Hist h = {i, j}; if (S.mine()) S.add(e, [=](Cx &c) { chained<T>(c, h, n, 1); }, "%cpanels n%d: %s", Tr<T>::p, n, hist_name<T>(h).c_str()); }
}
void enum_panels(Sink &S) { en_panels<z_t>(S, 5, 2); if (S.tier) { en_panels<d_t>(S, 7, 2); en_panels<z_t>(S, 7, 3); en_panels<d_t>(S, 9, 4); } }
void enum_chain(Sink &S) {
    Env e; e.nb = 2; e.ib = 1; Env tree = e; tree.hh = PlasmaTreeHouseholder; auto all = [](int, int) { return true; };
    en_pairs<z_t>(S, e, 5, 3, all);
    if (getenv("S08N")) { en_pairs<z_t>(S, e, atoi(getenv("S08N")), 3, all); return; }
    if (S.tier) { en_pairs<d_t>(S, e, 5, 3, all); en_pairs<s_t>(S, e, 5, 3, all); en_pairs<c_t>(S, e, 5, 3, all); en_pairs<z_t>(S, tree, 7, 1, all); en_pairs<d_t>(S, e, 6, 4, all); en_triples<z_t>(S, e, 5, 3, 1); en_triples<d_t>(S, e, 5, 3, 1); en_triples<d_t>(S, tree, 7, 2, 1); }
    else { en_pairs<d_t>(S, e, 5, 3, [](int i, int j) { return (i + j) % 8 == 0; }); en_pairs<s_t>(S, e, 5, 3, [](int i, int j) { return (i + j) % 16 == 1; }); en_pairs<c_t>(S, e, 5, 3, [](int i, int j) { return (i + j) % 16 == 3; }); en_pairs<z_t>(S, tree, 7, 1, [](int i, int j) { return (i * 3 + j) % 8 == 0; }); en_triples<z_t>(S, e, 5, 3, 17); }
}
}
#include "explore.h"
CHECK(S08) { sch({enum_panels, enum_chain}, [](const Case &c) { return c.env.npt > 1 ? 17 : 0; }, true); }
