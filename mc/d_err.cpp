// C01: failing factorizations are reported with the right status by every explored schedule.
// S09: every case ends under every explored schedule, thread count and panel-thread setting.
#include "ck.h"
using namespace mc;
typedef std::vector<void (*)(Sink &)> Fams;
static const Fams ALL = {enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_aasen, enum_svd, enum_mixed};
static bool one(const Case &cs, const Sched &s, bool values, int npt = 0) {
    Run r; Case c2 = cs; if (npt) c2.env.npt = npt;
    bool rv = record_vis, rd = record_dec; (void)rv; (void)rd;
    exec(c2, s, r);
    std::string rt = routine_of(cs.key), w = npt ? "panel threads " + std::to_string(npt) + ": " : "";
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], w + r.r.msg, s.str()); return false; }
    if (values) for (auto &b : r.c.bad) if (b.cat & (RC | NUM | IN)) { K.viol(rt + ":" + (b.cat == RC ? "status" : "overwritten"), w + b.what, s.str()); return false; }
    return true;
}
// all schedules with at most `bound` deviations from s (at visible points and/or where a thread picks its next task)
static bool deviate(const Case &cs, const Sched &s, int bound, bool vis, bool dec, bool values, std::unordered_set<std::string> &done) {
    if (K.stop()) { K.extra["cut_explorations"]++; return false; }
    Run r; record_vis = vis && bound > 0; record_dec = dec && bound > 0;
    exec(cs, s, r); record_vis = record_dec = false;
    K.extra["deviating_schedules"]++;
    std::string rt = routine_of(cs.key);
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg, s.str()); return false; }
    if (values) for (auto &b : r.c.bad) if (b.cat & (RC | NUM | IN)) { K.viol(rt + ":" + (b.cat == RC ? "status" : "overwritten"), b.what, s.str()); return false; }
    if (!bound) return true;
    u64 from = s.preempt.empty() ? 0 : s.preempt.back().first + 1, fromd = s.order.empty() ? 0 : s.order.back().first + 1;
    if (vis) for (auto &v : r.r.vis_alts) if (v.first >= from) for (int a = 1; a <= v.second; a++) {
        Sched t = s; t.preempt.push_back({v.first, a}); if (bound > 1 && !done.insert(t.str()).second) continue;
        if (!deviate(cs, t, bound - 1, vis, dec, values, done)) return false;
    }
    if (dec) for (u64 i = fromd; i < r.r.dec_alts.size(); i++) for (int a = 1; a < r.r.dec_alts[i]; a++) {
        Sched t = s; t.order.push_back({i, a}); if (!done.insert(t.str()).second) continue;
        if (!deviate(cs, t, bound - 1, vis, dec, values, done)) return false;
    }
    return true;
}
CHECK(C01) {
    containment = false; monitor = false;
    each_case(G_NUM, {enum_sing}, [&](Case &cs) {
        K.interesting();
        std::vector<Sched> ss = {sched(3), sched(2, LIFO, TID_BIT0), sched(4, FIFO_RESUME_LAST, TID_LOW)};
        if (cs.env.npt == 1) ss.push_back(sched(1, IMMEDIATE));
        for (auto &s : ss) if (!one(cs, s, true)) return;
        if (K.cases % 512 == 1) K.sample(cs.key + ": reported by " + std::to_string(ss.size()) + " schedules");
    });
    each_case(G_SCHED, {enum_sing}, [&](Case &cs) {
        if (K.tier == 0 && routine_of(cs.key)[0] != 'z') return;
        K.interesting(); std::unordered_set<std::string> done;
        // the failure happens between any two submissions ...
        Sched s = sched(2, FIFO_RESUME_LAST); s.create_points = true; if (!deviate(cs, s, 1, true, false, true, done)) return;
        // ... and tasks are picked up in another order
        done.clear(); if (!deviate(cs, sched(3), 1, false, true, true, done)) return;
        if (K.tier || cs.env.npt > 1) { done.clear(); if (!deviate(cs, sched(2), 1, true, true, true, done)) return; }
        if (K.cases % 256 == 1) K.sample(cs.key + ": reported by every deviating schedule");
    });
}
CHECK(S09) {
    containment = false; monitor = false;
    auto live = [&](Case &cs) {
        bool panel = cs.env.npt > 1; std::vector<int> npts = {0};
        if (panel) npts = K.tier ? std::vector<int>{2, 3, 4, 5, 6, 8} : std::vector<int>{2, 3, 5};
        if (routine_of(cs.key).find("gesdd") != std::string::npos) panel = true;
        K.interesting();
        for (int T : {1, 2, 3, 4, 5, 16, 33}) for (int npt : npts) for (int pol : {FIFO, LIFO, FIFO_RESUME_LAST}) for (int tid : {TID_LRU, TID_LOW, TID_BIT0}) {
            if (tid != TID_LRU && (T == 1 || (!panel && !K.tier))) continue;
            if (T > 5 && (pol != FIFO || tid != TID_LRU)) continue;
            if (!one(cs, sched(T, pol, tid), false, npt)) return;
        }
        if (panel && K.tier) for (int T = 1; T <= 3; T++) { std::unordered_set<std::string> done; if (!deviate(cs, sched(T), 1, true, true, false, done)) return; }
        if (K.cases % 512 == 1) K.sample(cs.key + ": ends for 1 to 5, 16 and 33 threads under every policy");
    };
    each_case(G_SCHED, ALL, live);
    each_case(G_SCHED, {enum_sing, enum_nan}, live);
}
// C02: illegal arguments and calls before initialization.
void enum_async_args(Sink &S);
CHECK(C02) {
    containment = true; monitor = false;
    each_case(G_NUM, {enum_args}, [&](Case &cs) {
        K.interesting(); Run r; u64 b0 = blas_calls; exec(cs, sched(2), r);
        std::string rt = routine_of(cs.key);
        if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg); return; }
        for (auto &b : r.c.bad) { K.viol(rt + (b.cat == RC ? ":code" : ":modified"), b.what); return; }
        if (r.r.live || r.r.lua_live) { K.viol(rt + ":leak", r.r.leaks); return; }
        if (r.r.tasks > 1 || blas_calls != b0) { K.viol(rt + ":ran", "the call did work before it was refused"); return; }
        if (K.cases % 4096 == 1) K.sample(cs.key + ": refused, nothing changed");
    });
    each_case(G_NUM, {enum_async_args}, [&](Case &cs) {
        K.interesting(); Run r; exec(cs, sched(2), r);
        std::string rt = routine_of(cs.key);
        if (r.r.out == EXITED && cs.key.find(" without ") != std::string::npos) return;
        if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg); return; }
        for (auto &b : r.c.bad) { K.viol(rt + (b.cat == RC ? ":code" : ":modified"), b.what); return; }
    });
}
