// Every schedule of a call gives the same result.
// One execution yields the happens-before graph (dependences, taskwaits, barriers).  If no two
// unordered tasks conflict, every linear extension of the graph gives the same data; the extra
// executions (other policies, thread counts and placements) confirm that the graph itself does
// not depend on the schedule and resolve pairs that shared a thread.  Where tasks talk through
// volatile variables (panels, static scheduler) all preemption-bounded interleavings are run.
#pragma once
#include "ck.h"
using namespace mc;
typedef std::vector<void (*)(Sink &)> Fams;
static std::string racestr(const Race &r) {
    char b[400]; snprintf(b, sizeof b, "%s of %s by %s and %s by %s are not ordered", r.where.c_str(), r.w1 ? "write" : "read", sym(r.pc1).c_str(), r.w2 ? "write" : "read", sym(r.pc2).c_str());
    return b;
}
static std::string fn(u32 pc) { std::string s = sym(pc); return s.substr(0, s.find('+')); }
static std::string racesig(const std::string &key, const Race &r) { std::string a = fn(r.pc1), b = fn(r.pc2); if (b < a) std::swap(a, b); return routine_of(key) + ":race:" + a + "/" + b; }
typedef std::set<std::pair<u64, u64>> Pairs;
// Where the algorithm itself depends on the number of threads (reduction trees, Aasen's panels),
// results are compared among the schedules with the same number of threads only.
typedef decltype(Cx::outs) Outs;
struct Refs { bool perT = false; std::map<int, Outs> m;
    const Outs *get(const Run &r, int T) { auto it = m.emplace(perT ? T : 0, r.c.outs); return &it.first->second; } };
static bool benign(const Race &r) { return fn(r.pc1) == "plasma_request_fail" || fn(r.pc2) == "plasma_request_fail"; }   // status words: only ever set to an error
static bool judge_bads;
static bool check_run(const Case &cs, const Sched &s, Run &r, Refs &ref) {
    exec(cs, s, r);
    auto &rc = r.r.races; rc.erase(std::remove_if(rc.begin(), rc.end(), benign), rc.end());
    std::string rt = routine_of(cs.key);
    if (!r.r.races.empty()) { K.viol(racesig(cs.key, r.r.races[0]), racestr(r.r.races[0]), s.str()); return false; }
    if (r.r.out != OK) { K.viol(rt + ":" + outcome_name[r.r.out], r.r.msg, s.str()); return false; }
    if (judge_bads) for (auto &b : r.c.bad) { K.viol(rt + (b.cat == RC ? ":status" : ":value"), b.what, s.str()); return false; }
    if (*ref.get(r, s.T) != r.c.outs) { K.viol(rt + ":result", "result differs from the one of the reference schedule", s.str()); return false; }
    return true;
}
static Pairs sametid_of(const Result &r) { Pairs p; for (auto &x : r.sametid) p.insert({std::min(x.t1, x.t2), std::max(x.t1, x.t2)}); return p; }
static Pairs inter(const Pairs &a, const Pairs &b) { Pairs c; for (auto &x : a) if (b.count(x)) c.insert(x); return c; }
static std::unordered_set<u64> graphs;
// All executions with at most `bound` deviations from the default schedule: a preemption at a visible
// operation (volatile access, atomic, critical section), or - if `dec` - another choice where a thread blocked.
static bool explore(const Case &cs, Refs &rs, const Sched &s, int bound, bool dec, std::unordered_set<std::string> &done) {
    if (K.stop()) { K.extra["cut_explorations"]++; return false; }
    record_vis = bound > 0; record_dec = bound > 0 && dec;
    Run r; bool good = check_run(cs, s, r, rs); record_vis = record_dec = false;
    K.extra["deviating_schedules"]++; K.extra["visible_points"] += r.r.vis_alts.size();
    if (!good) return false;
    if (bound == 0) return true;
    u64 from = s.preempt.empty() ? 0 : s.preempt.back().first + 1, fromd = s.order.empty() ? 0 : s.order.back().first + 1;
    for (auto &v : r.r.vis_alts) if (v.first >= from) for (int a = 1; a <= v.second; a++) {
        Sched t = s; t.preempt.push_back({v.first, a});
        if (bound > 1 && !done.insert(t.str()).second) continue;
        if (!explore(cs, rs, t, bound - 1, dec, done)) return false;
    }
    for (u64 i = fromd; i < r.r.dec_alts.size(); i++) for (int a = 1; a < r.r.dec_alts[i]; a++) {
        Sched t = s; t.order.push_back({i, a});
        if (!done.insert(t.str()).second) continue;
        if (!explore(cs, rs, t, bound - 1, dec, done)) return false;
    }
    return true;
}
static void sch(const Fams &f, const std::function<int(const Case &)> &bound, bool bads = false) {
    containment = false; monitor = true; judge_bads = bads;
    each_case(G_SCHED, f, [&](Case &cs) {
        if (K.have_replay) return;
        Refs rs; std::string rt = routine_of(cs.key); rs.perT = bads || cs.env.hh || rt.find("sysv") != rt.npos || rt.find("hesv") != rt.npos || rt.find("trf+trs") != rt.npos;
        Run ref; if (!check_run(cs, sched(4), ref, rs)) return;
        graphs.insert(ref.r.hbhash);
        if (ref.r.tasks > 1) K.interesting();
        Pairs open = sametid_of(ref.r);
        std::vector<Sched> ss = {sched(4, LIFO), sched(3, LIFO), sched(2, FIFO, TID_BIT0), sched(cs.env.npt > 1 ? std::max(3, cs.env.npt) : 2, FIFO_RESUME_LAST)};
        if (cs.env.npt == 1) ss.push_back(sched(1, IMMEDIATE)); else ss.push_back(sched(cs.env.npt));
        for (auto &s : ss) { if (s.T < cs.env.npt) s.T = cs.env.npt; Run r; if (!check_run(cs, s, r, rs)) return; open = inter(open, sametid_of(r.r)); }
        for (int b = 1; b < 16 && !open.empty(); b++) { Run r; Sched s = sched(std::max(2, cs.env.npt), FIFO, TID_BIT0 + b); if (!check_run(cs, s, r, rs)) return; open = inter(open, sametid_of(r.r)); }
        if (!open.empty()) { Run r; Sched s = sched((int)std::min<u64>(ref.r.tasks + 2, 1000)); if (!check_run(cs, s, r, rs)) return; open = inter(open, sametid_of(r.r)); }
        K.extra["unresolved_pairs"] += open.size();
        int bd = bound(cs);
        if (bd > 0) { Sched s0 = sched(std::max(2, cs.env.npt)); std::unordered_set<std::string> done; explore(cs, rs, s0, bd & 15, false, done); if (bd & 16) { done.clear(); explore(cs, rs, s0, 1 + K.tier, true, done); done.clear(); explore(cs, rs, sched(3), 1 + K.tier, false, done); } }
        if (K.cases % 256 == 1) K.sample(cs.key + ": " + std::to_string(ref.r.tasks) + " tasks, " + std::to_string(ref.r.edges) + " ordering edges, no unordered conflict");
    });
    // larger tile counts and tiles: one graph each, every ordering through its happens-before relation
    if (!bads) each_case(G_DEEP, f, [&](Case &cs) {
        if (K.have_replay) return;
        Refs rs; std::string rt = routine_of(cs.key); rs.perT = cs.env.hh || rt.find("sysv") != rt.npos || rt.find("hesv") != rt.npos || rt.find("trf+trs") != rt.npos; K.interesting();
        Run a, b; if (!check_run(cs, sched(std::max(4, cs.env.npt)), a, rs)) return; graphs.insert(a.r.hbhash);
        if (check_run(cs, sched(17, FIFO_RESUME_LAST), b, rs)) K.extra["deep_cases"]++;
    });
    K.distinct = graphs.size();
}
