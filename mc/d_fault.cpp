// C04: every single memory request of every call fails once.
// C05: nothing stays allocated, and calls do not influence each other.
// C11: results do not depend on tuning parameters or the number of threads.
#include "ck.h"
#include <memory>
using namespace mc;
typedef std::vector<void (*)(Sink &)> Fams;
static const Fams ALL = {enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_aasen, enum_svd, enum_mixed};
static bool judge(const Case &cs, const Run &r, const char *where, int cats, const Sched &s) {
    std::string rt = routine_of(cs.key), w = where;
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], w + r.r.msg, s.str()); return false; }
    for (auto &b : r.c.bad) if (b.cat & cats) { K.viol(rt + ":" + (b.cat == RC ? "status" : b.cat == IN ? "unchanged-part" : b.cat == LEAK ? "leak" : "value"), w + b.what, s.str()); return false; }
    return true;
}
CHECK(C04) {
    containment = true; monitor = false;
    auto one = [&](Case &cs, const Sched &base, bool single, bool persistent, bool pairs) {
        Run r0; exec(cs, base, r0);
        if (!judge(cs, r0, "", NUM | RC | IN | LEAK, base)) return;
        if (r0.r.live || r0.r.lua_live) { K.viol(routine_of(cs.key) + ":leak", "without any failure: " + r0.r.leaks, base.str()); return; }
        K.extra["allocation_points"] += r0.r.allocs;
        if (r0.r.allocs > 1) K.interesting();
        auto fault = [&](int k, int k2, const char *what) {
            Sched s = base; s.fail_at = k; s.fail_also = k2;
            Run r; RunOpt o; o.mode = M_FAULT; exec(cs, s, r, o); K.extra["faults"]++;
            char w[80]; snprintf(w, sizeof w, what, k < 0 ? -k : k, (int)r0.r.allocs, k2);
            if (!judge(cs, r, w, NUM | RC | IN | LEAK, s)) return;
            if (r.r.live || r.r.lua_live) K.viol(routine_of(cs.key) + ":leak", w + r.r.leaks, s.str());
        };
        int N = (int)r0.r.allocs;
        for (int k = 1; k <= N && single; k++) fault(k, 0, "request %d of %d fails: ");
        for (int k = 1; k <= N && persistent; k++) fault(-k, 0, "request %d of %d and all later ones fail: ");
        for (int k = 1; k <= N && pairs; k++) for (int l = k + 1; l <= N; l++) fault(k, l, "request %d of %d and request %d fail: ");
        if (K.cases % 256 == 1) K.sample(cs.key + ": each of " + std::to_string(r0.r.allocs) + " memory requests failed");
    };
    Sched l = sched(2, LIFO, TID_LOW);
    each_case(G_FAULT, ALL, [&](Case &cs) { one(cs, sched(3), true, true, true); one(cs, l, true, K.tier, false); });
    each_case(G_SCHED, ALL, [&](Case &cs) { one(cs, l, true, true, K.tier); one(cs, sched(1), true, false, false); });
    if (K.tier) each_case(G_MEM, ALL, [&](Case &cs) { one(cs, sched(3), true, false, false); });
}
CHECK(C11) {
    containment = false; monitor = false;
    each_case(G_TUNE, ALL, [&](Case &cs) {
        int Ts[6] = {1, 2, 4, 5, 16, 33}; const char *sep = "";
        for (int T : Ts) { (void)sep;
            if (T < cs.env.npt) continue;
            Run r; Sched s = sched(T); exec(cs, s, r);
            char w[40]; snprintf(w, sizeof w, "%d threads: ", T);
            if (!judge(cs, r, w, NUM | RC | IN, s)) return;
        }
        K.interesting();
        if (K.cases % 256 == 1) K.sample(cs.key + " with 1, 2, 4, 5, 16, 33 threads: same results");
    });
    // many tiles: algorithms that split work by the number of threads
    each_case(G_DEEP, ALL, [&](Case &cs) {
        for (int T : {2, 17}) { Run r; Sched s = sched(T); exec(cs, s, r); char w[40]; snprintf(w, sizeof w, "%d threads: ", T); if (!judge(cs, r, w, NUM | RC | IN, s)) return; }
        K.interesting();
    });
}
// ---- C05
static std::vector<Case> collect(Grid g, const Fams &f) {
    std::vector<Case> v; Sink S; S.grid = g; S.tier = K.tier; S.mine = [] { return true; };
    S.put = [&](Case &&c) { v.push_back(c); };
    for (auto e : f) e(S);
    return v;
}
static std::string diff(const Cx &a, const Cx &b) {
    if (a.outs.size() != b.outs.size()) return "a different number of results";
    for (size_t i = 0; i < a.outs.size(); i++) if (a.outs[i].second != b.outs[i].second) return a.outs[i].first + " differs";
    return "";
}
static void chain(const std::vector<const Case *> &cs, const Sched &s, std::vector<Cx> &cx, Result &r, bool fault_first = false) {
    cx.clear(); cx.resize(cs.size());
    for (size_t i = 0; i < cs.size(); i++) { cx[i] = Cx(); cx[i].env = cs[i]->env; if (fault_first && i + 1 < cs.size()) cx[i].mode = M_FAULT; }
    r = mc::run(s, [&] {
        cx[0].start(); if (cx[0].oom) { cx[0].finish(); return; }
        for (size_t i = 0; i < cs.size(); i++) {
            const Env &e = cx[i].env; plasma_set(PlasmaNb, e.nb); plasma_set(PlasmaIb, e.ib); plasma_set(PlasmaNumPanelThreads, e.npt); plasma_set(PlasmaHouseholderMode, e.hh);
            cs[i]->body(cx[i]);
        }
        cx.back().finish();
    });
    K.account(r);
}
CHECK(C05) {
    containment = true; monitor = false;
    static const Fams EV = {enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_aasen, enum_svd, enum_mixed, enum_sing, enum_nan};
    // 1. nothing stays allocated after any call, whatever it returns
    auto leak = [&](Case &cs) {
        Run r; exec(cs, sched(2), r); if (r.r.allocs > 1) K.interesting();
        if (r.r.out == BADFREE) { K.viol(routine_of(cs.key) + ":" + outcome_name[r.r.out], r.r.msg); return; }
        if (r.r.out == OK && (r.r.live || r.r.lua_live)) { K.viol(routine_of(cs.key) + ":leak", r.r.leaks); return; }
        if (K.cases % 1024 == 1) K.sample(cs.key + ": " + std::to_string(r.r.allocs) + " memory requests, all released");
    };
    each_case(G_MEM, EV, leak);
    // 2. what memory happens to contain does not matter; 3. every ordered pair of calls acts as the second one alone
    std::vector<Case> all = collect(G_HIST, ALL), first, second; std::map<std::string, int> per;
    std::vector<Case> sg = collect(G_SCHED, {enum_sing}), err = collect(G_HIST, {enum_args});
    for (auto &c : all) { int lim = K.tier ? 3 : 1; char p = c.key[0]; if (!K.tier && (p == 's' || p == 'c') && routine_of(c.key).substr(0, 3) != "sste") continue; if (per[routine_of(c.key)]++ < lim) { first.push_back(c); second.push_back(c); } }
    per.clear(); for (auto &c : sg) { if (!K.tier && c.key[0] != 'd' && c.key[0] != 'z') continue; if (per[routine_of(c.key)]++ % 16 == 7) first.push_back(c); }
    per.clear(); for (auto &c : err) { if (c.key[0] != 'd' && c.key[0] != 'z') continue; if (per[routine_of(c.key)]++ < (K.tier ? 3 : 1)) first.push_back(c); }
    K.extra["calls_in_histories"] = 0;
    const Sched s = sched(2); int pats[4] = {0x00, 0xff, 0x5a, 0x3f}; int fill0 = arena_fill;
    std::vector<std::unique_ptr<Cx>> alone(second.size());
    auto ref = [&](size_t j) -> Cx & { if (!alone[j]) { std::vector<Cx> v; Result r; chain({&second[j]}, s, v, r); alone[j] = std::make_unique<Cx>(std::move(v[0])); } return *alone[j]; };
    for (size_t j = 0; j < second.size(); j++) for (int p : pats) {
        if (!K.mine()) continue;
        K.begin("memory contents " + std::to_string(p) + ": " + second[j].key); Cx &a = ref(j);
        arena_fill = p; std::vector<Cx> v; Result r; chain({&second[j]}, s, v, r); arena_fill = fill0; K.interesting();
        if (r.out != OK) { K.viol(routine_of(second[j].key) + ":" + outcome_name[r.out], r.msg, s.str()); continue; }
        std::string d = diff(a, v[0]); if (!d.empty()) K.viol(routine_of(second[j].key) + ":uninitialized", d + " when fresh memory holds other bytes");
    }
    auto judge_chain = [&](size_t j, const std::vector<Cx> &v, const Result &r, const std::string &sig, const Sched &s2) {
        if (r.out != OK) { K.viol(sig + ":" + outcome_name[r.out], r.msg, s2.str()); return; }
        if (r.live || r.lua_live) { K.viol(sig + ":leak", r.leaks, s2.str()); return; }
        std::string d = diff(ref(j), v.back()); if (!d.empty()) K.viol(sig + ":history", d + " from the call made alone", s2.str());
    };
    for (size_t i = 0; i < first.size(); i++) for (size_t j = 0; j < second.size(); j++) {
        if (!K.mine()) continue;
        K.begin(first[i].key + " then " + second[j].key); K.interesting();
        std::vector<Cx> v; Result r; chain({&first[i], &second[j]}, s, v, r); K.extra["calls_in_histories"] += 2;
        judge_chain(j, v, r, routine_of(first[i].key) + "," + routine_of(second[j].key), s);
        if (K.cases % 4096 == 1) K.sample(K.cur + ": the second call gives the bits it gives alone");
    }
    // 4. a call that ran out of memory, then another
    for (size_t i = 0; i < first.size(); i++) {
        Run r0; bool have = false; u64 na = 0;
        for (u64 k = 1; k <= (K.tier ? 24 : 6); k++) for (size_t j = 0; j < second.size(); j += K.tier ? 3 : 17) {
            if (!K.mine()) continue;
            if (!have) { exec(first[i], s, r0); na = r0.r.allocs; have = true; }
            if (k > na) continue;
            K.begin(first[i].key + " with request " + std::to_string(k) + " failing, then " + second[j].key); K.interesting();
            Sched s2 = s; s2.fail_at = (int)k; std::vector<Cx> v; Result r; chain({&first[i], &second[j]}, s2, v, r, true);
            if (v[0].oom && v.back().outs.empty()) continue;
            judge_chain(j, v, r, routine_of(first[i].key) + "," + routine_of(second[j].key), s2);
        }
    }
}
