// The control layer: C14 option characters, C07 settings, C09 descriptor validation, C08 tile layout, C10 trees.
#include "ck.h"
#include <unordered_map>
#include <queue>
extern "C" {
int plasma_diag_const(char); int plasma_direct_const(char); int plasma_norm_const(char); int plasma_side_const(char); int plasma_storev_const(char); int plasma_trans_const(char); int plasma_uplo_const(char); int plasma_job_const(char); int plasma_range_const(char);
int mcx_lapack_const(int);
void mc_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int mc_omp_get_thread_num();
#include "plasma_tree.h"
#define TREE(n) __attribute__((weak)) void plasma_tree_##n(int, int, int **, int *, plasma_sequence_t *, plasma_request_t *)
#define TREEC(n) __attribute__((weak)) void plasma_tree_##n(int, int, int **, int *, int, plasma_sequence_t *, plasma_request_t *)
TREE(flat_ts); TREE(flat_tt); TREE(binary); TREE(greedy); TREEC(auto); TREEC(block_greedy);
}
using namespace mc;
static bool next(const char *f, ...) {
    char k[240]; va_list ap; va_start(ap, f); vsnprintf(k, sizeof k, f, ap); va_end(ap);
    if (!K.only.empty()) { K.idx++; if (K.only != k) return false; } else if (!K.mine()) return false;
    K.begin(k); return true;
}
// ---------------------------------------------------------------- C14
namespace {
struct OptRow { int v; const char *chars; };           // every character that means v, upper case; the first is the one LAPACK prints
struct OptMap { const char *name; int (*f)(char); int other; std::vector<OptRow> rows; };
std::vector<OptMap> optmaps() {
    return {
        {"diag", plasma_diag_const, PlasmaInvalid, {{PlasmaNonUnit, "N"}, {PlasmaUnit, "U"}}},
        {"direct", plasma_direct_const, PlasmaInvalid, {{PlasmaForward, "F"}, {PlasmaBackward, "B"}}},
        {"norm", plasma_norm_const, PlasmaInvalid, {{PlasmaOneNorm, "O1"}, {PlasmaTwoNorm, "2"}, {PlasmaFrobeniusNorm, "FE"}, {PlasmaInfNorm, "I"}, {PlasmaMaxNorm, "M"}}},
        {"side", plasma_side_const, PlasmaInvalid, {{PlasmaLeft, "L"}, {PlasmaRight, "R"}}},
        {"storev", plasma_storev_const, PlasmaInvalid, {{PlasmaColumnwise, "C"}, {PlasmaRowwise, "R"}}},
        {"trans", plasma_trans_const, PlasmaInvalid, {{PlasmaNoTrans, "N"}, {PlasmaTrans, "T"}, {PlasmaConjTrans, "C"}}},
        {"uplo", plasma_uplo_const, PlasmaGeneral, {{PlasmaUpper, "U"}, {PlasmaLower, "L"}}},
        {"job", plasma_job_const, PlasmaInvalid, {{PlasmaAllVec, "A"}, {PlasmaSomeVec, "S"}, {PlasmaVec, "V"}, {PlasmaNoVec, "N"}, {PlasmaIVec, "I"}}},
        {"range", plasma_range_const, PlasmaInvalid, {{PlasmaRangeAll, "A"}, {PlasmaRangeV, "V"}, {PlasmaRangeI, "I"}}},
    };
}
}
CHECK(C14) {
    containment = true; monitor = false;
    for (auto &m : optmaps()) {
        if (!next("%s option, every character", m.name)) continue;
        Result r = run(sched(1), [&] {
            int known = 0;
            for (int c = 0; c < 256; c++) {
                int want = m.other; char up_ = (c >= 'a' && c <= 'z') ? c - 32 : c;
                for (auto &o : m.rows) for (const char *p = o.chars; *p; p++) if (*p == up_) want = o.v;
                int got = m.f((char)c); K.extra["characters"]++;
                if (want != m.other) { known++; K.interesting(); }
                if (got != want) { char b[160]; snprintf(b, sizeof b, "%s_const(character %d) is %d, expected %d", m.name, c, got, want); K.viol(std::string("const:") + m.name, b); }
            }
            // the character of an option, and back
            for (auto &o : m.rows) {
                int c = mcx_lapack_const(o.v); K.extra["options"]++;
                char up_ = (c >= 'a' && c <= 'z') ? c - 32 : c; bool ok = false;
                for (const char *p = o.chars; *p; p++) ok |= *p == up_;
                char b[160];
                if (!ok) { snprintf(b, sizeof b, "option %d of %s has the character %d, expected one of %s", o.v, m.name, c, o.chars); K.viol(std::string("char:") + m.name, b); }
                else if (m.f((char)c) != o.v) { snprintf(b, sizeof b, "option %d of %s has the character %c, which maps to %d", o.v, m.name, c, m.f((char)c)); K.viol(std::string("roundtrip:") + m.name, b); }
            }
            if (m.other == PlasmaGeneral) { int c = mcx_lapack_const(PlasmaGeneral); if (m.f((char)c) != PlasmaGeneral) K.viol("roundtrip:general", "PlasmaGeneral does not map back to itself"); }
            K.sample(std::string(m.name) + ": 256 characters, " + std::to_string(known) + " of them options");
        });
        K.account(r); K.states += 256;
        if (r.out != OK) K.viol(std::string(m.name) + ":" + outcome_name[r.out], r.msg);
    }
}
// ---------------------------------------------------------------- C07
namespace {
enum { P_TUN, P_NB, P_IB, P_NPT, P_HH, NP };
const int PARAM[NP] = {PlasmaTuning, PlasmaNb, PlasmaIb, PlasmaNumPanelThreads, PlasmaHouseholderMode};
struct Model { bool init = false; int v[NP] = {PlasmaEnabled, 256, 64, 1, PlasmaFlatHouseholder}; bool operator<(const Model &o) const { return std::make_pair(init, std::vector<int>(v, v + NP)) < std::make_pair(o.init, std::vector<int>(o.v, o.v + NP)); } };
struct Op { std::string name; int kind, p, v; };      // kind 0 init, 1 finalize, 2 set, 3 init in a region, 4 finalize in a region, 5 set in a region, 6 a computation, 7 get of an unknown parameter
bool legal(int p, int v) { return p == P_TUN ? v == PlasmaEnabled || v == PlasmaDisabled : p == P_HH ? v == PlasmaFlatHouseholder || v == PlasmaTreeHouseholder : v > 0; }
std::vector<Op> make_ops() {
    std::vector<Op> o;
    o.push_back({"init", 0, 0, 0}); o.push_back({"finalize", 1, 0, 0});
    auto set = [&](const char *n, int p, std::vector<int> vs) { for (int v : vs) o.push_back({"set " + std::string(n) + " " + std::to_string(v), 2, p, v}); };
    set("tuning", P_TUN, {0, 1, 2, -1}); set("nb", P_NB, {1, 3, 0, -1, INT_MAX, INT_MIN}); set("ib", P_IB, {1, 2, 0, -1}); set("panel", P_NPT, {1, 2, 0, -1}); set("mode", P_HH, {PlasmaFlatHouseholder, PlasmaTreeHouseholder, 2, -1});
    for (int q : {(int)PlasmaInplaceOutplace, 6, -1, INT_MAX}) o.push_back({"set unknown " + std::to_string(q), 8, q, 1});
    o.push_back({"region init", 3, 0, 0}); o.push_back({"region finalize", 4, 0, 0}); o.push_back({"region set", 5, P_NB, 5});
    o.push_back({"compute", 6, 0, 0});
    return o;
}
struct Reg3 { const Op *o; int rc[4]; };
void region3(void *v) { Reg3 *r = (Reg3 *)v; int me = mc_omp_get_thread_num(); if (me) return; r->rc[0] = r->o->kind == 3 ? plasma_init() : r->o->kind == 4 ? plasma_finalize() : plasma_set(PARAM[r->o->p], r->o->v); }
std::string apply(const Op &o, Model &m, double *A) {
    char b[200]; auto bad = [&](int got, const char *want) { snprintf(b, sizeof b, "%s returned %d, expected %s", o.name.c_str(), got, want); return std::string(b); };
    Model old = m; (void)old;
    switch (o.kind) {
    case 0: { int rc = plasma_init(); if (m.init) { if (rc == 0) return bad(rc, "an error"); } else { if (rc) return bad(rc, "success"); m = Model(); m.init = true; } break; }
    case 1: { int rc = plasma_finalize(); if (!m.init) { if (rc != PlasmaErrorNotInitialized) return bad(rc, "not initialized"); } else { if (rc) return bad(rc, "success"); m = Model(); } break; }
    case 2: { int rc = plasma_set(PARAM[o.p], o.v); if (!m.init) { if (rc != PlasmaErrorNotInitialized) return bad(rc, "not initialized"); } else if (legal(o.p, o.v)) { if (rc) return bad(rc, "success"); m.v[o.p] = o.v; } else if (rc != PlasmaErrorIllegalValue) return bad(rc, "illegal value"); break; }
    case 8: { int rc = plasma_set(o.p, o.v); if (rc != (m.init ? PlasmaErrorIllegalValue : PlasmaErrorNotInitialized)) return bad(rc, m.init ? "illegal value" : "not initialized"); break; }
    case 3: case 4: case 5: { Reg3 r{&o, {0, 0, 0, 0}}; mc_GOMP_parallel(region3, &r, 2, 0); if (r.rc[0] == 0) return bad(r.rc[0], "an error"); break; }
    case 6: {
        if (m.v[P_NB] > 1000) break;
        double a[4] = {1, 2, 3, 4}, x[4] = {1, 1, 0, 2}; memcpy(A, a, sizeof a); memcpy(A + 4, x, sizeof x); for (int i = 8; i < 12; i++) A[i] = 9;
        int rc = plasma_dgemm(PlasmaNoTrans, PlasmaNoTrans, 2, 2, 2, 1.0, A, 2, A + 4, 2, 0.0, A + 8, 2);
        double w[4] = {4, 6, 6, 8};
        if (!m.init) { if (rc != PlasmaErrorNotInitialized) return bad(rc, "not initialized"); for (int i = 8; i < 12; i++) if (A[i] != 9) return "a computation wrote to its output before plasma_init"; }
        else { if (rc) return bad(rc, "success"); for (int i = 0; i < 4; i++) if (A[8 + i] != w[i]) return "a computation returned a wrong result"; }
        break; }
    }
    for (int p = 0; p < NP; p++) {
        int v = -77, rc = plasma_get(PARAM[p], &v);
        if (!m.init) { if (rc != PlasmaErrorNotInitialized) return "after " + o.name + ": " + "plasma_get returned " + std::to_string(rc) + ", expected not initialized"; if (v != -77) return "plasma_get wrote a value though the library is not initialized"; }
        else if (rc || v != m.v[p]) { snprintf(b, sizeof b, "after %s: plasma_get(parameter %d) gives %d with code %d, expected %d", o.name.c_str(), PARAM[p], v, rc, m.v[p]); return b; }
    }
    for (int q : {(int)PlasmaInplaceOutplace, 6, -1}) { int v = -77, rc = plasma_get(q, &v); if (rc != (m.init ? PlasmaErrorIllegalValue : PlasmaErrorNotInitialized) || v != -77) { snprintf(b, sizeof b, "after %s: plasma_get(unknown parameter %d) returned %d", o.name.c_str(), q, rc); return b; } }
    return "";
}
// the history h; returns false when it violates
bool history(const std::vector<Op> &ops, const std::vector<int> &h, Model *end = nullptr) {
    Model m; std::string why, txt; size_t at = 0;
    Result r = run(sched(2), [&] {
        double *A = (double *)ualloc(12 * sizeof(double), "A"); m = Model();
        for (at = 0; at < h.size(); at++) { why = apply(ops[h[at]], m, A); if (!why.empty()) break; u64 lib = alloc_count(); (void)lib; }
        if (end) *end = m;
        if (why.empty() && m.init && plasma_finalize()) why = "the final plasma_finalize failed";
    });
    K.account(r); K.extra["histories"]++; K.extra["operations_checked"] += h.size();
    for (size_t i = 0; i < h.size() && i <= at; i++) txt += (i ? "; " : "") + ops[h[i]].name;
    if (r.out != OK) { K.viol(std::string("history:") + outcome_name[r.out], r.msg + " in: " + txt); return false; }
    if (!why.empty()) { K.viol("history:state", why + " in: " + txt); return false; }
    if (r.live || r.lua_live) { K.viol("history:leak", r.leaks + " after: " + txt); return false; }
    return true;
}
}
CHECK(C07) {
    containment = true; monitor = false;
    auto ops = make_ops(); int N = (int)ops.size();
    // every operation in every state of the model, reached by a shortest history
    std::map<Model, std::vector<int>> path; std::queue<Model> q; path[Model()] = {}; q.push(Model());
    while (!q.empty()) {
        Model s = q.front(); q.pop();
        for (int o = 0; o < N; o++) {
            Model t = s; const Op &p = ops[o];
            if (p.kind == 0 && !s.init) { t = Model(); t.init = true; }
            else if (p.kind == 1 && s.init) t = Model();
            else if (p.kind == 2 && s.init && legal(p.p, p.v)) t.v[p.p] = p.v;
            if (!path.count(t)) { path[t] = path[s]; path[t].push_back(o); q.push(t); }
        }
    }
    int n = 0;
    for (auto &s : path) {
        n++; if (!next("state %d: init=%d tuning=%d nb=%d ib=%d panel=%d mode=%d", n, (int)s.first.init, s.first.v[0], s.first.v[1], s.first.v[2], s.first.v[3], s.first.v[4])) continue;
        K.interesting(); K.extra["model_states"]++;
        for (int o = 0; o < N; o++) { auto h = s.second; h.push_back(o); K.extra["model_transitions"]++; if (!history(ops, h)) break; }
        if (n == 7) K.sample(K.cur + ": every operation answered as the model says");
    }
    // every history up to a depth
    int depth;
    // the third and later operations of deep histories leave out the values that only repeat a kind of refusal
    std::vector<int> all(N), few; for (int i = 0; i < N; i++) all[i] = i;
    for (int i = 0; i < N; i++) { const Op &o = ops[i]; if (o.kind <= 1 || o.kind >= 3 && o.kind <= 6 || (o.kind == 2 && ((legal(o.p, o.v) && o.v != INT_MAX) || o.v == 0))) if (!(o.kind == 8)) few.push_back(i); }
    for (int a = 0; a < N; a++) for (int b = 0; b < N; b++) {
        if (!next("histories %s; %s; ...", ops[a].name.c_str(), ops[b].name.c_str())) continue;
        K.interesting(); bool ok = true;
        std::function<void(std::vector<int> &)> rec = [&](std::vector<int> &h) {
            if (!ok || ((K.execs & 255) == 0 && K.stop())) return;
            bool leaf = (int)h.size() == depth;
            if (leaf || (int)h.size() >= 2) { if (leaf || (int)h.size() == 2) ok = history(ops, h); }
            if (leaf) return;
            for (int o : (int)h.size() < 3 ? all : few) { h.push_back(o); rec(h); h.pop_back(); if (!ok) return; }
        };
        std::vector<int> h{a, b};
        depth = (K.tier ? 5 : 4) + (ops[a].kind == 0 && ops[b].kind <= 2);
        rec(h);
    }
}
// ---------------------------------------------------------------- descriptors
namespace {
const int PRECS[4] = {PlasmaRealFloat, PlasmaRealDouble, PlasmaComplexFloat, PlasmaComplexDouble};
struct Dv { int kind, prec, uplo, mb, nb, lm, ln, i, j, m, n, kl, ku; std::string str() const { char b[200]; snprintf(b, sizeof b, "%s prec=%d uplo=%d mb=%d nb=%d lm=%d ln=%d i=%d j=%d m=%d n=%d kl=%d ku=%d", kind == 0 ? "general" : kind == 1 ? "band" : "triangular", prec, uplo, mb, nb, lm, ln, i, j, m, n, kl, ku); return b; } };
int ceilq(int a, int b) { return (a + b - 1) / b; }
int band_tiles(const Dv &d) { // tile rows of the band storage
    int klt = d.uplo == PlasmaUpper ? 0 : ceilq(d.kl, d.mb), kut = d.uplo == PlasmaLower ? 0 : ceilq(d.uplo == PlasmaUpper ? d.ku : d.ku + d.kl, d.nb);
    return klt + kut + 1;
}
// is a descriptor with these arguments legal?
bool valid(const Dv &d) {
    bool okp = false; for (int p : PRECS) okp |= p == d.prec;
    if (!okp || d.mb <= 0 || d.nb <= 0 || d.m < 0 || d.n < 0 || d.i < 0 || d.j < 0 || d.lm < 0 || d.ln < 0) return false;
    if (d.i > 0 && d.i >= d.lm) return false;
    if (d.j > 0 && d.j >= d.ln) return false;
    if (d.i % d.mb || d.j % d.nb || d.j + d.n > d.ln) return false;
    if (d.kind != 1) { if (d.i + d.m > d.lm) return false; if (d.kind == 2 && (d.lm != d.ln || d.mb != d.nb || (d.uplo != PlasmaUpper && d.uplo != PlasmaLower))) return false; return true; }
    if (d.uplo != PlasmaGeneral && d.uplo != PlasmaUpper && d.uplo != PlasmaLower) return false;
    if (d.kl < 0 || d.ku < 0 || d.kl >= std::max(1, d.m) || d.ku >= std::max(1, d.n)) return false;
    return d.lm >= band_tiles(d) * d.mb;
}
int make(const Dv &d, plasma_desc_t *A, bool init_only) {
    if (init_only) {
        int r = d.kind == 0 ? plasma_desc_general_init(d.prec, nullptr, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, A)
              : d.kind == 1 ? plasma_desc_general_band_init(d.prec, d.uplo, nullptr, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, d.kl, d.ku, A)
              : plasma_desc_triangular_init(d.prec, d.uplo, nullptr, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, A);
        return r ? r : plasma_desc_check(*A);
    }
    return d.kind == 0 ? plasma_desc_general_create(d.prec, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, A)
         : d.kind == 1 ? plasma_desc_general_band_create(d.prec, d.uplo, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, d.kl, d.ku, A)
         : plasma_desc_triangular_create(d.prec, d.uplo, d.mb, d.nb, d.lm, d.ln, d.i, d.j, d.m, d.n, A);
}
int type_of(const Dv &d) { return d.kind == 0 ? PlasmaGeneral : d.kind == 1 ? PlasmaGeneralBand : d.uplo; }
// every mistake in the fields a descriptor was made with
std::string fields(const Dv &d, const plasma_desc_t &A) {
    char b[160]; auto bad = [&](const char *f, long g, long w) { snprintf(b, sizeof b, "field %s is %ld, expected %ld", f, g, w); return std::string(b); };
#define FLD(f, w) if ((long)A.f != (long)(w)) return bad(#f, A.f, w)
    FLD(type, type_of(d)); FLD(precision, d.prec); FLD(mb, d.mb); FLD(nb, d.nb); FLD(gm, d.lm); FLD(gn, d.ln); FLD(i, d.i); FLD(j, d.j); FLD(m, d.m); FLD(n, d.n);
    FLD(gmt, ceilq(d.lm, d.mb)); FLD(gnt, ceilq(d.ln, d.nb)); FLD(mt, ceilq(d.m, d.mb)); FLD(nt, ceilq(d.n, d.nb));
    if (d.kind == 1) { FLD(kl, d.kl); FLD(ku, d.ku); FLD(uplo, d.uplo); FLD(klt + A.kut - 1, band_tiles(d)); }
    return "";
}
}
CHECK(C09) {
    containment = true; monitor = false;
    auto judge = [&](const Dv &d, const char *what) -> bool {
        bool want = valid(d); int rc = 0, rc2 = 0; std::string f; u64 live = 0;
        Result r = run(sched(1), [&] {
            plasma_init(); plasma_desc_t A; memset(&A, 0x5a, sizeof A);
            rc2 = make(d, &A, true);
            memset(&A, 0x5a, sizeof A); rc = make(d, &A, false); live = live_allocs();
            if (rc == 0) { f = fields(d, A); if (f.empty() && !A.matrix) f = "the matrix is not allocated"; if (f.empty() && plasma_desc_check(A)) f = "the descriptor does not validate"; plasma_desc_destroy(&A); }
            plasma_finalize();
        });
        K.account(r); K.extra["constructor_calls"] += 2;
        if (r.out != OK) { K.viol(std::string(what) + ":" + outcome_name[r.out], r.msg + " for " + d.str()); return false; }
        if ((rc == 0) != want) { K.viol(std::string(what) + (want ? ":refused" : ":accepted"), "create returned " + std::to_string(rc) + " for " + d.str()); return false; }
        if ((rc2 == 0) != want) { K.viol(std::string(what) + (want ? ":refused" : ":accepted"), "initialize and check returned " + std::to_string(rc2) + " for " + d.str()); return false; }
        if (!want && rc != PlasmaErrorIllegalValue) { K.viol(std::string(what) + ":code", "create returned " + std::to_string(rc) + ", expected illegal value, for " + d.str()); return false; }
        if (!f.empty()) { K.viol(std::string(what) + ":fields", f + " for " + d.str()); return false; }
        if (r.live || r.lua_live) { K.viol(std::string(what) + ":leak", r.leaks + " for " + d.str()); return false; }
        return true;
    };
    std::vector<int> bs = K.tier ? std::vector<int>{-1, 0, 1, 2, 3, 4} : std::vector<int>{-1, 0, 1, 2, 3}; int L = K.tier ? 7 : 4;
    // constructors over every small argument vector
    for (int kind : {0, 2}) for (int mb : bs) for (int nb : bs) for (int uplo : kind == 0 ? std::vector<int>{PlasmaGeneral} : std::vector<int>{PlasmaUpper, PlasmaLower, PlasmaGeneral, 0, -1}) {
        for (int lm = -1; lm <= L; lm++) {
            if (!next("%s constructor mb=%d nb=%d uplo=%d lm=%d", kind ? "triangular" : "general", mb, nb, uplo, lm)) continue;
            K.interesting(); bool ok = true;
            for (int ln = -1; ok && ln <= L; ln++) for (int i = -1; ok && i <= std::max(0, lm); i++) for (int j = -1; ok && j <= std::max(0, ln); j++)
                for (int m = -1; ok && m <= lm + 1; m++) for (int n = -1; ok && n <= ln + 1; n++) {
                    if (K.tier == 0 && (m > 1 && m < lm - 1) && (n > 1 && n < ln - 1)) continue;
                    if (kind == 2 && K.tier == 0 && lm != ln && (i > 0 || j > 0)) continue;
                    ok = judge({kind, PRECS[(lm + ln + m + n + 8) % 4], uplo, mb, nb, lm, ln, i, j, m, n, 0, 0}, kind ? "triangular" : "general");
                }
        }
    }
    for (int nb : K.tier ? std::vector<int>{-1, 0, 1, 2, 3, 4} : std::vector<int>{-1, 0, 1, 2, 3}) for (int uplo : {(int)PlasmaGeneral, (int)PlasmaUpper, (int)PlasmaLower, 0, -1}) for (int n = -1; n <= L + 1; n++) {
        if (!next("band constructor nb=%d uplo=%d n=%d", nb, uplo, n)) continue;
        K.interesting(); bool ok = true;
        for (int m = std::max(-1, n - 1); ok && m <= n + 1; m++) for (int kl = -1; ok && kl <= std::max(m, 0); kl++) for (int ku = -1; ok && ku <= std::max(n, 0); ku++) {
            if (uplo == PlasmaUpper && kl > 0) continue;
            if (uplo == PlasmaLower && ku > 0) continue;
            Dv d{1, PRECS[(m + n + kl + ku + 8) % 4], uplo, nb, nb, 0, n, 0, 0, m, n, kl, ku};
            int rows = nb > 0 && kl >= 0 && ku >= 0 ? band_tiles(d) * nb : 3;
            for (int lm : {rows, rows - 1, rows + 1, 0, -1}) for (int ln : {n, n - 1, n + 1}) for (int j : {0, -1, nb > 0 ? nb : 1}) { if (j > 0 && (ln != n || lm != rows)) continue; Dv e = d; e.lm = lm; e.ln = ln; e.j = j; if (j > 0) continue; if (!(ok = judge(e, "band"))) break; }
        }
    }
    for (int prec = -1; prec <= 7; prec++) for (int kind = 0; kind < 3; kind++) { if (!next("precision %d kind %d", prec, kind)) continue; K.interesting(); judge({kind, prec, kind == 2 ? PlasmaLower : PlasmaGeneral, 2, 2, kind == 1 ? 6 : 3, 3, 0, 0, 3, 3, 1, 1}, "precision"); }
    // single-field corruptions of valid descriptors; submatrices
    auto corrupt = [&](const Dv &d) {
        std::string why; int n = 0;
        Result r = run(sched(1), [&] {
            plasma_init(); plasma_desc_t A; memset(&A, 0, sizeof A);
            if (make(d, &A, false)) { why = "the descriptor was refused"; plasma_finalize(); return; }
            auto rej = [&](const char *f, int plasma_desc_t::*fld, int v) { if (!why.empty()) return; plasma_desc_t B = A; if (B.*fld == v) return; B.*fld = v; n++; int rc = plasma_desc_check(B); if (rc != PlasmaErrorIllegalValue) why = std::string("with ") + f + " = " + std::to_string(v) + " the check returned " + std::to_string(rc); };
#define REJ(f, v) rej(#f, &plasma_desc_t::f, v)
            for (int t : {0, -1, (int)PlasmaNoTrans, (int)PlasmaLeft}) REJ(type, t);
            for (int t : {-1, 0, 1, 6, 100}) REJ(precision, t);
            for (int t : {0, -1, -2, INT_MIN}) { REJ(mb, t); REJ(nb, t); }
            for (int t : {-1, -2, INT_MIN}) { REJ(m, t); REJ(n, t); REJ(i, t); REJ(j, t); if (d.i || d.mb > 1) REJ(i, -d.mb); REJ(j, -d.nb); }
            REJ(n, d.ln - d.j + 1); REJ(n, d.ln + 1); REJ(j, d.ln - d.n + d.nb - (d.ln - d.n) % d.nb); if (d.kind != 1) { REJ(m, d.lm - d.i + 1); REJ(m, d.lm + 1); if (d.m) REJ(i, d.lm - d.m + d.mb - (d.lm - d.m) % d.mb); }
            if (d.kind != 1) { REJ(gm, d.i + d.m - 1); REJ(gm, -1); }
            REJ(gn, d.j + d.n - 1); REJ(gn, -1);
            if (d.mb > 1 && d.i + 1 < d.lm) REJ(i, d.i + 1);
            if (d.nb > 1 && d.j + 1 < d.ln) REJ(j, d.j + 1);
            if (d.kind == 1) { for (int t : {-1, INT_MIN}) { REJ(kl, t); REJ(ku, t); } REJ(kl, std::max(1, d.m)); REJ(ku, std::max(1, d.n)); for (int t : {0, -1, (int)PlasmaNoTrans}) REJ(uplo, t); REJ(gm, band_tiles(d) * d.mb - 1); REJ(gm, 0); }
            // submatrices of general and triangular matrices
            if (d.kind != 1) for (int i = 0; why.empty() && i <= d.m; i += d.mb) for (int j = 0; why.empty() && j <= d.n; j += d.nb) for (int m = 0; m <= d.m - i; m++) for (int nn = 0; nn <= d.n - j; nn++) {
                if ((d.i + i && d.i + i >= d.lm) || (d.j + j && d.j + j >= d.ln)) continue;
                plasma_desc_t B = plasma_desc_view(A, i, j, m, nn); n++; int rc = plasma_desc_check(B);
                Dv e = d; e.i += i; e.j += j; e.m = m; e.n = nn; std::string f; { Dv g = e; f = fields(g, B); }
                if (rc || !f.empty()) { char b[160]; snprintf(b, sizeof b, "the submatrix (%d,%d) %dx%d: check %d %s", i, j, m, nn, rc, f.c_str()); why = b; break; }
            }
            plasma_desc_destroy(&A); plasma_finalize();
        });
        K.account(r); K.extra["checked_variants"] += n;
        if (r.out != OK) { K.viol(std::string("corruption:") + outcome_name[r.out], r.msg + " for " + d.str()); return false; }
        if (!why.empty()) { K.viol("corruption", why + " for " + d.str()); return false; }
        return true;
    };
    for (int kind = 0; kind < 3; kind++) for (int nb = 1; nb <= (K.tier ? 4 : 3); nb++) for (int n = 0; n <= (K.tier ? 9 : 6); n++) {
        if (!next("corruptions kind=%d nb=%d n=%d", kind, nb, n)) continue;
        K.interesting(); bool ok = true;
        if (kind == 0) for (int mb = 1; ok && mb <= 3; mb++) for (int m = 0; ok && m <= (K.tier ? 9 : 6); m++) for (int off = 0; ok && off < 3; off++) ok = corrupt({0, PRECS[(m + n) % 4], PlasmaGeneral, mb, nb, m + (off == 1 ? mb : 0), n + (off == 2 ? nb : 0) + (off == 1 ? 1 : 0), off == 1 ? (m ? mb : 0) : 0, off == 2 ? (n ? nb : 0) : 0, m, n, 0, 0});
        else if (kind == 1) { if (n) for (int uplo : {(int)PlasmaGeneral, (int)PlasmaUpper, (int)PlasmaLower}) for (int kl = 0; ok && kl < n; kl++) for (int ku = 0; ok && ku < n; ku++) { if ((uplo == PlasmaUpper && kl) || (uplo == PlasmaLower && ku)) continue; Dv d{1, PRECS[n % 4], uplo, nb, nb, 0, n, 0, 0, n, n, kl, ku}; d.lm = band_tiles(d) * nb; ok = corrupt(d); } }
        else for (int u : UPLOS) if (ok) ok = corrupt({2, PRECS[n % 4], u, nb, nb, n, n, 0, 0, n, n, 0, 0});
        if (n == 5) K.sample(K.cur + ": every corrupted variant rejected");
    }
    // submatrices that leave the matrix are not handed out
    for (int kind : {0, 2}) for (int nb = 1; nb <= 3; nb++) for (int n = 1; n <= 5; n++) {
        if (!next("views out of bounds kind=%d nb=%d n=%d", kind, nb, n)) continue;
        K.interesting(); Dv d{kind, PlasmaRealDouble, kind ? PlasmaUpper : PlasmaGeneral, nb, nb, n, n, 0, 0, n, n, 0, 0}; bool ok = true;
        for (int i = 0; ok && i <= n; i += nb) for (int j = 0; ok && j <= n; j += nb) for (int wm = 0; ok && wm <= 1; wm++) for (int wn = 0; ok && wn <= 1; wn++) {
            if (!wm && !wn) continue; bool back = false;
            Result r = run(sched(1), [&] { plasma_init(); plasma_desc_t A; make(d, &A, false); plasma_desc_t B = plasma_desc_view(A, i, j, n - i + wm, n - j + wn); back = plasma_desc_check(B) == 0; });
            K.account(r);
            if (back || (r.out != OK && r.out != EXITED)) { char b[160]; snprintf(b, sizeof b, "view (%d,%d) %dx%d of an %dx%d matrix was handed out and validates (%s)", i, j, n - i + wm, n - j + wn, n, n, outcome_name[r.out]); K.viol("view:accepted", b); ok = false; }
        }
    }
}
