// C06: a failed request stops the rest of its sequence, and nothing else.
#include "omp.h"
#include "explore.h"
extern "C" void mc_GOMP_task(void (*)(void *), void *, void (*)(void *, void *), long, long, bool, unsigned, void **, int, void *);
using namespace mc;
namespace {
struct Status { plasma_sequence_t *seq; plasma_request_t *rq; };
Status statuses(int k) { Status s; s.seq = (plasma_sequence_t *)ualloc(sizeof(plasma_sequence_t), "sequence"); s.rq = (plasma_request_t *)ualloc(sizeof(plasma_request_t) * k, "requests"); plasma_sequence_init(s.seq); for (int i = 0; i < k; i++) plasma_request_init(&s.rq[i]); return s; }
// ways for an operation to fail; expect: the status it has to report (0: any failure)
template<class T> struct Fail { std::string name; int expect; bool alloc; std::function<void(Pool<T> &)> prep; std::function<void(Pool<T> &, plasma_sequence_t *, plasma_request_t *)> f; };
template<class T> std::function<void(Pool<T> &, plasma_sequence_t *, plasma_request_t *)> named(const std::string &n) { for (auto &o : async_ops<T>()) if (n == o.name) { auto f = o.f; return [f](Pool<T> &p, plasma_sequence_t *s, plasma_request_t *r) { f(p, 3, s, r); }; } fprintf(stderr, "no operation %s\n", n.c_str()); abort(); }
template<class T> const std::vector<Fail<T>> &failures() {
    typedef Pool<T> P; typedef OMP<T> O; typedef plasma_sequence_t *Q; typedef plasma_request_t *Rq; typedef typename Tr<T>::R R; static std::vector<Fail<T>> v; if (!v.empty()) return v;
    auto z = [](plasma_desc_t P::*d, int i, T x) { return [=](P &p) { *p.template el<T>(p.*d, i, i) = x; }; };
    auto zc = [](plasma_desc_t P::*d, int j) { return [=](P &p) { for (int i = 0; i < p.n; i++) if (T *q = p.template el<T>(p.*d, i, j)) *q = T(0); }; };
    auto nop = [](P &) {};
    auto num = [&](const char *op, int expect, std::function<void(P &)> prep) { v.push_back({op, expect, false, prep, named<T>(op)}); };
    num("potrf H", 3, z(&P::H, 2, T(-1))); num("potrf H U", 4, z(&P::H, 3, T(-1))); num("posv H X", 1, z(&P::H, 0, T(-1))); num("poinv H L", 4, z(&P::H, 3, T(0))); num("potri H", 2, z(&P::H, 1, T(0)));
    num("pbtrf PB", 3, z(&P::PB, 2, T(-2))); num("pbsv PB X", 4, z(&P::PB, 3, T(-2)));
    num("getrf A", 2, zc(&P::A, 1)); num("gesv A X", 4, zc(&P::A, 3)); num("geinv A", 1, zc(&P::A, 0)); num("gbtrf AB", 3, zc(&P::AB, 2)); num("gbsv AB X", 1, zc(&P::AB, 0)); num("trtri A", 3, z(&P::A, 2, T(0))); num("getri A", 2, z(&P::A, 1, T(0))); num("getrf G", 3, zc(&P::G, 2));
    if constexpr (std::is_same<T, d_t>::value || std::is_same<T, z_t>::value) { num("lag2 A", 0, z(&P::A, 2, T(1e300))); num("mixed gesv", 2, zc(&P::A, 1)); num("mixed posv", 3, z(&P::H, 2, T(-1))); num("mixed gbsv", 1, zc(&P::AB, 0)); }
    const int ill = PlasmaErrorIllegalValue;
#define ILLS(nm, st, ...) v.push_back({nm, st, false, nop, [](P &p, Q s, Rq q) { __VA_ARGS__; }})
#define ILL(nm, ...) v.push_back({nm, ill, false, nop, [](P &p, Q s, Rq q) { __VA_ARGS__; }})
    ILL("gemm with an illegal trans", O::gemm(-1, PlasmaNoTrans, T(1), p.A, p.B, T(1), p.C, s, q)); ILL("syrk with an illegal uplo", O::syrk(-1, PlasmaNoTrans, T(1), p.A, T(1), p.C, s, q)); ILL("trsm with an illegal side", O::trsm(-1, PlasmaLower, PlasmaNoTrans, PlasmaUnit, T(1), p.A, p.X, s, q)); ILL("lascl by zero", O::lascl(PlasmaGeneral, (R)0, (R)1, p.A, s, q)); ILL("lange with an illegal norm", O::lange(-1, p.A, p.wk[3], p.val, s, q)); ILL("posv with an illegal uplo", O::posv(-1, p.H, p.X, s, q)); ILL("pbsv with an illegal uplo", O::pbsv(-1, p.PB, p.X, s, q)); ILL("gesdd with an illegal job", O::gesdd(-1, PlasmaNoVec, p.B, p.TQ, p.S, p.U, p.n, p.V, p.n, p.work, s, q)); ILL("unmqr with an illegal side", O::unmqr(-1, PlasmaNoTrans, p.A, p.TQ, p.C, p.work, s, q)); ILL("geswp with an illegal order", O::geswp(-1, p.A, p.ipiv, 1, s, q)); ILL("gesdd with unequal jobs", O::gesdd(PlasmaNoVec, PlasmaSomeVec, p.B, p.TQ, p.S, p.U, p.n, p.V, p.n, p.work, s, q)); ILL("trtri with an illegal diag", O::trtri(PlasmaLower, -1, p.A, s, q)); ILL("potrf with an illegal uplo", O::potrf(-1, p.H, s, q)); ILL("lacpy with an illegal uplo", O::lacpy(-1, PlasmaNoTrans, p.A, p.B, s, q)); ILL("hesv with an illegal uplo", O::hesv(-1, p.HI, p.ipiv, p.TD, p.ipiv2, p.X, p.WA, s, q)); ILLS("gels with an illegal trans", PlasmaErrorNotSupported, O::gels(-1, p.A, p.TQ, p.X, p.work, s, q)); ILL("getrs with an illegal trans", O::getrs(-1, p.A, p.ipiv, p.X, s, q)); ILL("gbmm with an illegal trans", O::gbmm(PlasmaNoTrans, -1, T(1), p.AB, p.B, T(1), p.C, s, q));
#undef ILL
#undef ILLS
    for (auto op : {"getrf A", "gbtrf AB", "hetrf I", "gesdd A vectors", "gesdd B"}) v.push_back({std::string(op) + " without memory", PlasmaErrorOutOfMemory, true, nop, named<T>(op)});
    return v;
}
u64 alloc_from, alloc_to;   // allocations of the failing operation in the last run
bool alloc_run;
// one after another on one sequence: `before`, the failure, `after`
template<class T> void flush(Cx &c, const Fail<T> &F, int before, const std::vector<int> &after, int n) {
    auto &ops = async_ops<T>(); Pool<T> p(n, 2, c.env, 7); int k = 0; Status st = statuses(2 + (int)after.size());
    if (!p.err.empty()) { c.badf(OTHER, "%s", p.err.c_str()); return; }
    if (before >= 0) in_parallel([&] { ops[before].f(p, 0, st.seq, &st.rq[0]); }); k = 1;
    if (st.seq->status) { c.badf(OTHER, "the operation before the failure failed with %d", st.seq->status); return; }
    F.prep(p);
    alloc_from = alloc_count(); in_parallel([&] { F.f(p, st.seq, &st.rq[k]); }); alloc_to = alloc_count();
    if (!(F.alloc && !alloc_run)) {
        int s = st.seq->status;
        if (!s) c.badf(RC, "%s is not reported", F.name.c_str());
        else if (F.expect && s != F.expect) c.badf(RC, "%s is reported as %d instead of %d", F.name.c_str(), s, F.expect);
        if (st.seq->request != &st.rq[k]) c.badf(RC, "the failing request is not recorded"); else if (st.rq[k].status != s) c.badf(RC, "the failing request holds %d, the sequence %d", st.rq[k].status, s);
        if (st.rq[0].status) c.badf(RC, "the request before holds %d", st.rq[0].status);
        auto b = p.bits();
        for (size_t i = 0; i < after.size() && s; i++) {
            in_parallel([&] { ops[after[i]].f(p, 1, st.seq, &st.rq[2 + i]); });
            std::string d = p.differs(b); if (!d.empty()) { c.badf(NUM, "%s after the failure modifies %s", ops[after[i]].name, d.c_str()); break; }
            if (st.seq->status != s || st.seq->request != &st.rq[k]) { c.badf(RC, "%s after the failure replaces its record", ops[after[i]].name); break; }
        }
        if (st.rq[k].status != s) c.badf(RC, "the status of the failing request is replaced");
    }
    p.destroy();
}
// at the same time on another sequence
template<class T> void others(Cx &c, const Fail<T> &F, int P, int n) {
    auto &ops = async_ops<T>(); Pool<T> a(n, 2, c.env, 7), b(n, 2, c.env, 8), alone(n, 2, c.env, 8); Status sa = statuses(1), sb = statuses(1), sc = statuses(1);
    if (!a.err.empty() || !b.err.empty() || !alone.err.empty()) { c.badf(OTHER, "creating the operands failed"); return; }
    F.prep(a); in_parallel([&] { ops[P].f(alone, 1, sc.seq, &sc.rq[0]); });
    in_parallel([&] { F.f(a, sa.seq, &sa.rq[0]); ops[P].f(b, 1, sb.seq, &sb.rq[0]); });
    if (!sa.seq->status) c.badf(RC, "%s is not reported", F.name.c_str());
    if (sb.seq->status != sc.seq->status || sb.rq[0].status != sc.rq[0].status) c.badf(RC, "%s on another sequence ends with %d instead of %d", ops[P].name, sb.seq->status, sc.seq->status);
    std::string d = b.differs(alone.bits()); if (!d.empty()) c.badf(NUM, "%s on another sequence gets %s wrong", ops[P].name, d.c_str());
    a.destroy(); b.destroy(); alone.destroy();
}
// without waiting: whatever runs first, the record is one failing request and its status
template<class T> void pending(Cx &c, const Fail<T> &F, int P, const Fail<T> *G, int n) {
    auto &ops = async_ops<T>(); Pool<T> p(n, 2, c.env, 7), q(n, 2, c.env, 8); Status st = statuses(3);
    if (!p.err.empty() || !q.err.empty()) { c.badf(OTHER, "creating the operands failed"); return; }
    F.prep(p); if (G) G->prep(q);
    in_parallel([&] { F.f(p, st.seq, &st.rq[0]); if (G) G->f(q, st.seq, &st.rq[1]); if (P >= 0) ops[P].f(p, 1, st.seq, &st.rq[2]); });
    bool own = false; for (int i = 0; i < 3; i++) own |= st.seq->request == &st.rq[i] && st.rq[i].status == st.seq->status && st.seq->status;
    if (!st.seq->status) c.badf(RC, "%s is not reported", F.name.c_str()); else if (!own) c.badf(RC, "the recorded status %d is not the one of the recorded request", st.seq->status);
    p.destroy(); q.destroy();
}
// submitted before the failure, run after it: the failing operation, a task of the harness that waits for it and holds back everything else, another operation
template<class T> struct Gate { Pool<T> *b; plasma_sequence_t *seq; int runs, status; decltype(std::declval<Pool<T>>().bits()) before; };
template<class T> void gate(void *v) { Gate<T> *g = *(Gate<T> **)v; full_reset(9); g->runs++; g->status = g->seq->status; g->before = g->b->bits(); }
template<class T> void dep_addresses(Pool<T> &p, std::vector<void *> &d) {
    for (auto *m : p.all) if (m->matrix) { size_t es = plasma_element_size(m->precision); (void)es; for (int j = 0; j < m->gnt; j++) for (int i = 0; i < m->gmt; i++) { if (m->type == PlasmaGeneralBand) continue; void *a = plasma_tile_addr(*m, i, j); if (a) d.push_back(a); } }
    for (auto &x : p.mem) { bool desc = false; for (auto *m : p.all) if ((char *)m->matrix == x.second.first && m->type != PlasmaGeneralBand) desc = true; if (!desc) for (size_t o = 0; o < x.second.second; o += 4) d.push_back(x.second.first + o); }
}
template<class T> void submitted(Cx &c, const Fail<T> &F, int P, int n) {
    auto &ops = async_ops<T>(); Pool<T> a(n, 2, c.env, 7), b(n, 2, c.env, 8); Status st = statuses(2);
    if (!a.err.empty() || !b.err.empty()) { c.badf(OTHER, "creating the operands failed"); return; }
    F.prep(a); std::vector<void *> addr; dep_addresses(a, addr); dep_addresses(b, addr); std::sort(addr.begin(), addr.end()); addr.erase(std::unique(addr.begin(), addr.end()), addr.end());
    std::vector<void *> dep{(void *)addr.size(), (void *)addr.size()}; dep.insert(dep.end(), addr.begin(), addr.end());
    Gate<T> g{&b, st.seq, 0, 0, {}}, *gp = &g;
    in_parallel([&] { F.f(a, st.seq, &st.rq[0]); mc_GOMP_task(gate<T>, &gp, nullptr, sizeof gp, alignof(Gate<T> *), true, 8, dep.data(), 0, nullptr); ops[P].f(b, 1, st.seq, &st.rq[1]); });
    int s = st.seq->status;
    if (g.runs != 1) c.badf(OTHER, "the task of the harness ran %d times", g.runs);
    else if (!g.status) c.badf(RC, "%s is not reported when its tasks are done", F.name.c_str());
    else { std::string d = b.differs(g.before); if (!d.empty()) c.badf(NUM, "%s runs after the failure and modifies %s", ops[P].name, d.c_str()); if (s != g.status || st.seq->request != &st.rq[0] || st.rq[0].status != s) c.badf(RC, "%s after the failure replaces its record", ops[P].name); }
    a.destroy(); b.destroy();
}
template<class T> void en_flush(Sink &S, const Env &e, int n, int stride, int kind) {
    auto &F = failures<T>(); auto &O = async_ops<T>(); long k = 0; char t = Tr<T>::p;
    for (size_t f = 0; f < F.size(); f++) for (size_t o = 0; o < O.size(); o++) if (k++ % stride == 0) {
        const Fail<T> *x = &F[f]; int P = (int)o; static const char *B[] = {"lange C fro", "gemm C=AB", "potrf TR", "geqrf K", "lacpy G2=G"};
        if (kind == 0) { int before = -1; for (size_t i = 0; i < O.size(); i++) if (!strcmp(O[i].name, B[(f + o) % 5])) before = (int)i; if (S.mine()) S.add(e, [=](Cx &c) { flush<T>(c, *x, before, {P}, n); }, "%cflush n%d: %s; %s; %s", t, n, O[before].name, x->name.c_str(), O[o].name); }
        if (kind == 1 && !x->alloc && S.mine()) S.add(e, [=](Cx &c) { others<T>(c, *x, P, n); }, "%cothers n%d: %s | %s", t, n, x->name.c_str(), O[o].name);
        if (kind == 4 && !x->alloc && S.mine()) S.add(e, [=](Cx &c) { submitted<T>(c, *x, P, n); }, "%csubmitted n%d: %s; %s", t, n, x->name.c_str(), O[o].name);
        if (kind == 2 && !x->alloc && S.mine()) S.add(e, [=](Cx &c) { pending<T>(c, *x, P, nullptr, n); }, "%cpending n%d: %s; %s", t, n, x->name.c_str(), O[o].name);
    }
    if (kind == 3) for (size_t f = 0; f < F.size(); f++) for (size_t g = 0; g < F.size(); g++) if (k++ % stride == 0 && !F[f].alloc && !F[g].alloc) { const Fail<T> *x = &F[f], *y = &F[g]; if (S.mine()) S.add(e, [=](Cx &c) { pending<T>(c, *x, -1, y, n); }, "%ctwo n%d: %s; %s", t, n, x->name.c_str(), y->name.c_str()); }
    // all of them after one failure
    if (kind == 0) for (size_t f = 0; f < F.size(); f++) { const Fail<T> *x = &F[f]; std::vector<int> all; for (size_t o = 0; o < O.size(); o++) all.push_back((int)((o * 7 + f) % O.size())); if (S.mine()) S.add(e, [=](Cx &c) { flush<T>(c, *x, -1, all, n); }, "%cflush n%d: %s; all the others", t, n, x->name.c_str()); }
}
void enum_seq(Sink &S) {
    Env e; e.nb = 2; e.ib = 1; Env tree = e; tree.hh = PlasmaTreeHouseholder;
    if (S.tier) { for (int k = 0; k < 5; k++) { en_flush<z_t>(S, e, 5, 1, k); en_flush<d_t>(S, e, 5, 1, k); en_flush<s_t>(S, e, 5, 1, k); en_flush<c_t>(S, e, 5, 1, k); en_flush<z_t>(S, tree, 7, 1, k); } }
    else { en_flush<z_t>(S, e, 5, 1, 0); en_flush<d_t>(S, e, 5, 3, 0); en_flush<s_t>(S, e, 5, 7, 0); en_flush<c_t>(S, e, 5, 7, 0); en_flush<z_t>(S, e, 4, 5, 1); en_flush<d_t>(S, e, 4, 11, 1); en_flush<z_t>(S, e, 4, 23, 2); en_flush<z_t>(S, e, 4, 5, 3); en_flush<d_t>(S, tree, 7, 53, 2); en_flush<z_t>(S, e, 4, 1, 4); en_flush<d_t>(S, e, 4, 5, 4); }
}
bool judged(const Case &cs, const Sched &s, bool alloc = false) {
    alloc_run = alloc; Run r; exec(cs, s, r); auto &rc = r.r.races; rc.erase(std::remove_if(rc.begin(), rc.end(), benign), rc.end()); std::string rt = cs.key.substr(1, cs.key.find(' ') - 1);
    if (!rc.empty() && rt == "others") { K.viol(rt + ":race", racestr(rc[0]), s.str()); return false; }
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg, s.str()); return false; }
    for (auto &b : r.c.bad) { K.viol(rt + (b.cat == RC ? ":status" : ":data"), b.what, s.str()); return false; }
    return true;
}
bool deviating(const Case &cs, Sched s, int bound) {
    record_vis = bound > 0; alloc_run = false; Run r; exec(cs, s, r); record_vis = false; K.extra["deviating_schedules"]++;
    std::string rt = cs.key.substr(1, cs.key.find(' ') - 1);
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg, s.str()); return false; }
    for (auto &b : r.c.bad) { K.viol(rt + (b.cat == RC ? ":status" : ":data"), b.what, s.str()); return false; }
    if (bound) { u64 from = s.preempt.empty() ? 0 : s.preempt.back().first + 1; for (auto &v : r.r.vis_alts) if (v.first >= from) for (int a = 1; a <= v.second; a++) { Sched t = s; t.preempt.push_back({v.first, a}); if (!deviating(cs, t, bound - 1)) return false; } }
    return true;
}
// several threads report failures at the same time: every interleaving of their accesses
struct Rep { int N; plasma_sequence_t *seq; plasma_request_t *rq; };
void report(void *v) { Rep *R = (Rep *)v; int me = mc_omp_get_thread_num(); full_reset(10 + me); plasma_request_fail(R->seq, &R->rq[me], -10 - me); }
void reports() {
    for (int N = 2; N <= 3 + K.tier; N++) for (int pre = 0; pre < 2; pre++) {
        std::string key = std::to_string(N) + " failures at once" + (pre ? " after another" : "");
        if (!K.only.empty()) { K.idx++; if (K.only != key) continue; } else if (!K.mine()) continue;
        K.begin(key); K.interesting(); typedef std::vector<std::pair<int, std::pair<u64, int>>> Pre; std::vector<Pre> work{{}}; u64 execs = 0; bool ok = true;
        while (!work.empty() && ok && !K.stop()) {
            if (execs > (K.tier ? 2000000u : 100000u)) { K.extra["truncated"]++; break; }
            Pre p = work.back(); work.pop_back(); Sched s = sched(N); s.full = true; for (auto &x : p) if (x.first == 0) s.preempt.push_back(x.second); else s.order.push_back(x.second);
            Result r = run(s, [&] {
                Status st = statuses(N + 1); Rep R{N, st.seq, st.rq};
                if (pre) plasma_request_fail(st.seq, &st.rq[N], -9);
                full_region(st.seq, sizeof *st.seq); full_region(st.rq, sizeof *st.rq * (N + 1));
                mc_GOMP_parallel(report, &R, N, 0);
                for (int i = 0; i < N; i++) if (st.rq[i].status != -10 - i) mc::fail(ASSERT, "a request lost its status");
                bool own = false; for (int i = 0; i <= N; i++) own |= st.seq->request == &st.rq[i] && st.seq->status == (i == N ? -9 : -10 - i);
                if (!own) mc::fail(ASSERT, "the recorded status is not the one of the recorded request");
                if (pre && st.seq->request != &st.rq[N]) mc::fail(ASSERT, "the first failure is not the recorded one");
            });
            K.account(r); execs++;
            if (r.out != OK) { K.viol(std::string("report:") + outcome_name[r.out], r.msg, s.str()); ok = false; break; }
            size_t from = 0; if (!p.empty()) for (; from < r.choices.size(); from++) if (r.choices[from].kind == p.back().first && r.choices[from].idx == p.back().second.first) { from++; break; }
            for (size_t i = from; i < r.choices.size(); i++) for (int a = 1; a <= r.choices[i].alts; a++) { Pre q = p; q.push_back({r.choices[i].kind, {r.choices[i].idx, a}}); work.push_back(q); }
        }
        K.extra["interleavings_of_reports"] += execs;
    }
}
}
CHECK(C06) {
    containment = false; monitor = true; reports();
    each_case(G_HIST, {enum_seq}, [&](Case &cs) {
        if (K.have_replay) return;
        bool flushed = cs.key.find("flush") == 1; K.interesting();
        if (cs.key.find("submitted") == 1) { for (int pol : {FIFO, LIFO}) if (!judged(cs, sched(1, pol))) return; if (judged(cs, sched(3, FIFO))) judged(cs, sched(2, FIFO_RESUME_LAST)); return; }
        if (!judged(cs, sched(4))) return;
        if (flushed && cs.key.find("without memory") != std::string::npos) { u64 a = alloc_from, b = alloc_to; for (u64 k = a + 1; k <= b; k++) { Sched s = sched(4); s.fail_at = (int)k; if (!judged(cs, s, true)) return; } return; }
        if (!judged(cs, sched(2, LIFO))) return;
        if (flushed) { if (!judged(cs, sched(1, IMMEDIATE))) return; return; }
        if (!judged(cs, sched(3, FIFO_RESUME_LAST)) || !judged(cs, sched(1, IMMEDIATE))) return;
        Sched s = sched(3, FIFO_RESUME_LAST); s.create_points = true; if (cs.key.find("others") == std::string::npos || K.tier) deviating(cs, s, 1);
    });
}
