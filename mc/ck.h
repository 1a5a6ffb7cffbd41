// Check driver: one worker of one check.
#pragma once
#include "h.h"
#include <unordered_set>
struct Ck {
    std::string id; int tier = 0, w = 0, W = 1; bool thorough = false; std::string only; long only_idx = -1, from = 0, to = 1l << 60; bool verbose = false;
    std::set<long> skip; double deadline = 1e18; bool stopped = false; std::unordered_set<u64> keys;
    long idx = -1;                       // case counter (all workers count alike)
    // statistics
    u64 cases = 0, execs = 0, states = 0, trans = 0, accesses = 0, classes = 0, nontrivial = 0, viols = 0, distinct = 0;
    std::map<std::string, u64> extra;
    std::vector<std::string> samples;
    std::string cur;
    char *status = nullptr;
    std::map<std::string, int> sigcount;
    std::string replay_sched; bool have_replay = false;
    bool stop();
    void interesting() { nontrivial++; keys.insert(std::hash<std::string>()(cur)); }
    bool mine() { idx++; if (stopped) return false; if (only_idx >= 0) return idx == only_idx; return idx % W == w && idx >= from && idx <= to && !skip.count(idx); }
    void begin(const std::string &key);
    void viol(const std::string &sig, const std::string &detail, const std::string &sched = "");
    void sample(const std::string &s) { if (samples.size() < 3) samples.push_back(s); }
    void report();
    void account(const mc::Result &r) { execs++; states += r.nodes; trans += r.edges + r.decisions; accesses += r.accesses; }
};
extern Ck K;
struct Run { mc::Result r; Cx c; };
struct RunOpt { int mode = M_NORMAL; };
void exec(const Case &cs, const mc::Sched &s, Run &out, RunOpt o = {});
std::string oneline(std::string s);
typedef void (*CheckFn)();
struct Reg { Reg(const char *id, CheckFn f); };
#define CHECK(ID) static void chk_##ID(); static Reg reg_##ID(#ID, chk_##ID); static void chk_##ID()
void each_case(Grid g, const std::vector<void (*)(Sink &)> &fams, const std::function<void(Case &)> &f, const char *suffix = "");
mc::Sched sched(int T, int pol = mc::FIFO, int tid = mc::TID_LRU);
std::string routine_of(const std::string &key);
