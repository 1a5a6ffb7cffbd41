// Controlled OpenMP run-time + happens-before monitor: interface used by the harnesses.
#pragma once
#include <cstdint>
#include <cstddef>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <functional>
#include <map>
#include <set>
typedef uint64_t u64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;

namespace mc {

enum Outcome { OK = 0, DEADLOCK, TIMEOUT, CRASH, EXITED, ASSERT, OOB, BADFREE, BUDGET, ILLEGALBLAS, HARNESS };
extern const char *outcome_name[];

// ---- schedule: everything that decides one execution
enum Policy { FIFO = 0, LIFO = 1, IMMEDIATE = 2, FIFO_RESUME_LAST = 3, NPOLICY };
enum TidPol { TID_LRU = 0, TID_LOW = 1, TID_BIT0 = 16 /* +b: (taskindex>>b)&1 etc. */ };
struct Hold { u64 task; u64 acc; u64 until; };      // suspend `task` before access `acc` until task `until` completed
struct Sched {
    int T = 4;                    // threads
    int policy = FIFO;
    int tidpol = TID_LRU;
    bool full = false;            // record the state at every choice (full exploration)
    int fail_at = 0, fail_also = 0; bool create_points = false;              // k-th allocation fails (1-based); -k: it and all later ones; 0: none
    std::vector<Hold> holds;
    std::vector<std::pair<u64,int>> preempt;  // (visible op index, alternative index >=1)
    std::vector<std::pair<u64,int>> order;    // (scheduling decision index, candidate index >=1)
    std::string str() const;
};

struct Race { u64 t1, t2; u64 a1, a2; u32 pc1, pc2; int tid1, tid2; bool w1, w2; uintptr_t addr; std::string where; const char *k1,*k2; };

struct Result {
    Outcome out = OK;
    std::string msg;
    std::vector<Race> races;       // unordered conflicting accesses by tasks on different threads
    std::vector<Race> sametid;     // the same, but the two tasks happened to run on one thread
    u64 nodes = 0, tasks = 0, accesses = 0, visible = 0, decisions = 0, edges = 0;
    u64 allocs = 0, live = 0, live_bytes = 0, lua_live = 0;
    u64 hbhash = 0;                // hash of the happens-before graph (task uids + edges)
    std::vector<std::pair<u64,int>> vis_alts;   // per visible op: number of alternatives (recorded if record_vis)
    std::vector<int> dec_alts;     // per scheduling decision: number of candidates
    bool hold_timeout = false;     // a Hold had to be released because nothing else could run
    int holds_hit = 0;
    std::string leaks;
    struct Choice { int kind; u64 idx; int alts; u64 state; };
    std::vector<Choice> choices;                // full exploration: choices in order; kind 0: preempt, 1: order
};

extern bool record_vis, record_dec;
extern bool containment;           // out-of-bounds access ends the run (default true)
extern bool monitor;               // race monitor on (default true)
extern u64 access_budget;          // accesses per run before it is called endless
extern int arena_fill;             // byte pattern written to fresh memory

// Execute body() as the initial task under schedule s.
Result run(const Sched &s, const std::function<void()> &body);

// ---- memory for the harness, inside the monitored arena. valid between begin_config and the end of run
void *ualloc(size_t bytes, const char *name);             // readable+writable
void uprotect(void *p, size_t bytes, int rw);             // 0 none, 1 read, 2 write, 3 both
const char *locate(uintptr_t a, char *buf, size_t n);     // describe an address
u64 live_allocs(std::string *desc = nullptr);             // library allocations not yet freed
bool was_freed(void*p);
u64 alloc_count(); extern u64 max_request;                  // largest block asked for since it was last set to 0
void unwatch_all_live();                                   // treat current live allocations as owned by the caller
bool is_library_alloc(void *p);

void lib_free(void *p);                                   // free an object the library handed over
void fail(Outcome o, const std::string &msg);             // abandon the run (from inside)
void set_env(const char *name, const char *value);        // what getenv() answers to the library
std::string sym(u32 pc);

void full_region(void *p, size_t n);                      // shared memory of a full exploration
void full_reset(u64 v);                                   // the running task's local state is v, whatever it observed before
void init();                                              // once per process
int cur_T();

// declare the footprint of an access made by a wrapper
void touch(const void *p, size_t n, bool write, const void *pc);
bool valid_range(const void *p, size_t n, bool write);
extern u64 blas_calls;
extern std::vector<std::string> libc_output;               // what the library printed in this run
}
