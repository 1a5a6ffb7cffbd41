// Controlled OpenMP run-time, happens-before monitor and memory guard.
#include "mc.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <ctime>
#include <unistd.h>
#include <algorithm>
#include <deque>
#include <unordered_map>
#include <unordered_set>
#include <array>

extern "C" void mc_swap(void **save, void *load);
extern "C" char __start_plasma_data[] __attribute__((weak)), __stop_plasma_data[] __attribute__((weak));
extern "C" char __start_plasma_bss[] __attribute__((weak)), __stop_plasma_bss[] __attribute__((weak));

namespace mc {

const char *outcome_name[] = {"ok", "deadlock", "endless", "crash", "exit", "assertion", "out-of-bounds", "bad-free", "budget", "illegal-blas-argument", "harness"};

bool record_vis = false, record_dec = false, containment = true, monitor = true;
u64 access_budget = 200000000ull;
int arena_fill = 0xFF; u64 max_request;
u64 blas_calls = 0;
std::vector<std::string> libc_output;

// ------------------------------------------------------------------ memory map
static const uintptr_t BASE = 0x200000000000ull;
static const size_t ARENA = 384ull << 20;
static const size_t SLOT = 128ull << 10;
static const int NSLOT = 2304;
static const size_t TOTAL = ARENA + NSLOT * SLOT;
static const int GSH = 17;                      // generation granularity = SLOT
static const size_t REDZ = 256;

struct Cell {
    u32 gen, w, wpc, nr;
    u64 wacc;
    u32 r[3], rpc[3];
    u32 racc[3]; u32 ovf;
};
static Cell *shadow;                            // arena + stacks
static Cell *gshadow[2];                        // library globals (.data, .bss)
static uintptr_t glo[2], ghi[2];
static u32 gens[TOTAL >> GSH];
static u8 *valid;                               // per arena granule: 1 readable, 2 writable
static u32 gen_counter = 1, run_gen;
static size_t brk_ = 0, high = 0, valid_high = 0;
static std::vector<std::vector<std::array<u32,3>>> overflow;

struct Alloc { size_t off, size; bool lib, freed; const char *name; u32 pc; u64 task; bool watched; };
static std::vector<Alloc> allocs;
static std::map<size_t, u32> alloc_by_off;
static u64 nalloc;                              // library allocation requests in this run

// ------------------------------------------------------------------ tasks
struct Team; struct Thread; struct Task;
struct TaskGroup { TaskGroup *up; int count = 0; std::vector<u32> ends; };
struct DepEntry { std::vector<Task*> outs, ins; int kind = 0; };
enum Block { RUNNABLE = 0, NOTSTARTED, TASKWAIT, GROUPWAIT, BARRIER, CRITICAL, SPIN, HOLDB, UNDEF, JOIN, DEPWAIT, DONE };
static const char *block_name[] = {"runnable", "not-started", "taskwait", "taskgroup", "barrier", "critical", "spin", "hold", "undeferred", "join", "depwait", "done"};
struct Task {
    u64 uid; Task *parent; Team *team; Thread *thr;
    void (*fn)(void *); void *data;
    bool implicit, done, inq, tied, final_;
    Block block;
    int npred; std::vector<Task*> succ, preds;
    int nchildren; std::vector<u32> ends;        // ends of completed children since last taskwait
    TaskGroup *group, *created_group;
    std::map<uintptr_t, DepEntry> *deps;
    u32 node, endnode, startbase; bool split;
    void *sp; int slot;
    u32 kids; u64 acc; u64 spin; u64 visc;
    int singles, wsidx;
    void *waitobj; const char *name; int index;
    u64 spin_seen; int depth;
    u64 hist; std::vector<std::pair<u32,u64>> reads;   // full exploration: what the task has observed
};
struct Thread { int tid; Team *team; std::vector<Task*> stack; u64 last; };
struct WorkShare { long next, end, incr, chunk; int arrived; long sections; };
struct Team {
    int n; Team *up; int level, active; Task *encounter;
    std::vector<Thread*> thr; std::vector<Task*> implicit;
    int arrived, live_tasks; int single_done; std::vector<u32> ends;
    void *copyprivate; std::vector<WorkShare*> ws; u32 barnode; bool closing; int finished;
};

static struct G {
    void *main_sp;
    Task *cur; const Sched *s; Result *res;
    std::vector<Task*> tasks; std::vector<Team*> teams; std::vector<Thread*> threads; std::vector<TaskGroup*> groups;
    std::deque<Task*> ready;                     // explicit tasks with no unmet dependence
    std::deque<Task*> runq;                      // started tasks that can continue
    std::vector<Task*> spinners, held;
    std::vector<int> freeslots;
    std::vector<void*> blobs;
    u64 clock, progress; u64 vis, dec; int taskindex; bool aborted, in_run, want_abort;
    Outcome aout; std::string amsg;
    Task *root;
    std::unordered_map<uintptr_t, u32> relnode;  // last release node per sync variable
    std::unordered_map<uintptr_t, Task*> owner;  // critical sections and locks
    std::unordered_map<uintptr_t, std::deque<Task*>> waiters;
    std::map<u64, int> pre; std::map<u64, int> ord;
    std::unordered_map<u64, Task*> byuid;
    const std::function<void()> *body;
    u64 volwrites; std::unordered_set<u64> seen;
} g;

// ------------------------------------------------------------------ happens-before nodes
struct Node { u64 *anc; u32 words; Task *t; u64 acc; };
static Node *nodes; static u32 nnodes;
static const u32 MAXNODES = 400000;
static u64 *ancpool; static size_t ancused;
static const size_t ANCMAX = (2ull << 30) / 8;

static inline bool hb(u32 a, u32 b) {
    if (a == b || a == 0) return true;
    if (a > b) return false;
    return (nodes[b].anc[a >> 6] >> (a & 63)) & 1;
}
void abort_run(Outcome o, const std::string &m);
static u32 newnode(Task *t) {
    if (nnodes >= MAXNODES) abort_run(BUDGET, "too many task segments");
    u32 i = nnodes++;
    u32 w = (i >> 6) + 1;
    if (ancused + w > ANCMAX) abort_run(BUDGET, "happens-before storage");
    nodes[i] = {ancpool + ancused, w, t, t ? t->acc : 0};
    memset(ancpool + ancused, 0, w * 8);
    ancused += w;
    if (g.res) g.res->nodes++;
    return i;
}
static inline void addanc(u32 n, u32 a) {
    if (a == 0 || a == n) return;
    Node &N = nodes[n], &A = nodes[a];
    u32 w = A.words < N.words ? A.words : N.words;
    for (u32 i = 0; i < w; i++) N.anc[i] |= A.anc[i];
    N.anc[a >> 6] |= 1ull << (a & 63);
    if (g.res) g.res->edges++;
}
static inline void do_split(Task *t) {
    u32 n = newnode(t);
    addanc(n, t->node);
    t->node = n; t->split = false;
}
static void join_into(Task *t, const std::vector<u32> &ends) {
    u32 n = newnode(t);
    addanc(n, t->node);
    for (u32 e : ends) if (!hb(e, n)) addanc(n, e);
    t->node = n; t->split = false;
}
static u64 mix(u64 a, u64 b) { a ^= b + 0x9e3779b97f4a7c15ull + (a << 6) + (a >> 2); a *= 0xff51afd7ed558ccdull; a ^= a >> 33; return a; }

// ------------------------------------------------------------------ run control
static sigjmp_buf main_jmp;
void abort_run(Outcome o, const std::string &m) {
    if (!g.in_run) { fprintf(stderr, "mc: %s: %s\n", outcome_name[o], m.c_str()); _exit(9); }
    g.aborted = true; g.aout = o; g.amsg = m;
    siglongjmp(main_jmp, 1);
}
void fail(Outcome o, const std::string &m) { abort_run(o, m); }

static void unblock(Task *t) {
    t->block = RUNNABLE;
    if (!t->inq) { t->inq = true; g.runq.push_back(t); }
}
static void to_scheduler() { Task *t = g.cur; mc_swap(&t->sp, g.main_sp); }

static void finish_task(Task *t);
static void task_entry() {
    Task *t = g.cur;
    t->fn(t->data);
    finish_task(t);
    to_scheduler();
    abort();
}
static void start_coroutine(Task *t) {
    if (g.freeslots.empty()) abort_run(BUDGET, "too many live tasks");
    t->slot = g.freeslots.back(); g.freeslots.pop_back();
    char *lo = (char *)BASE + ARENA + (size_t)t->slot * SLOT;
    gens[(ARENA + (size_t)t->slot * SLOT) >> GSH] = ++gen_counter;
    uintptr_t top = (uintptr_t)lo + SLOT - 64;
    top &= ~15ull;
    u64 *sp = (u64 *)top;
    *--sp = 0;                      // fake return address of task_entry (alignment)
    *--sp = (u64)task_entry;
    for (int i = 0; i < 6; i++) *--sp = 0;
    t->sp = sp;
    t->block = RUNNABLE;
}

static bool descendant(Task *t, Task *a) { for (Task *p = t->parent; p; p = p->parent) { if (p == a) return true; if (p->depth < a->depth) return false; } return false; }

static bool thread_can_take(Thread *th, Task *t) {
    Task *top = th->stack.empty() ? nullptr : th->stack.back();
    if (!top) return false;
    if (top->team != t->team) return false;
    switch (top->block) {
    case BARRIER: return true;
    case TASKWAIT: case GROUPWAIT: return descendant(t, top);
    case UNDEF: return (Task *)top->waitobj == t;
    case DEPWAIT: return descendant(t, top);
    default: return false;
    }
}
static Thread *pick_thread(Task *t) {
    Team *tm = t->team;
    if (t->block == NOTSTARTED && t->waitobj) { // undeferred: creating thread
        Thread *th = (Thread *)t->waitobj; return thread_can_take(th, t) ? th : nullptr;
    }
    Thread *best = nullptr;
    int pol = g.s->tidpol;
    if (pol >= TID_BIT0 && tm->n > 1) {
        int b = pol - TID_BIT0;
        int want = ((t->index >> b) & 1) % tm->n;
        if (tm->n > 2) want = ((t->index >> b) % tm->n);
        if (thread_can_take(tm->thr[want], t)) return tm->thr[want];
    }
    for (Thread *th : tm->thr) {
        if (!thread_can_take(th, t)) continue;
        if (!best) { best = th; if (pol == TID_LOW) break; continue; }
        if (th->last < best->last) best = th;
    }
    return best;
}
struct Cand { Task *t; Thread *th; };   // th set: start ready task on th
static Cand forced = {nullptr, nullptr};   // set by a preemption: runs next
static void candidates(std::vector<Cand> &c, size_t limit) {
    bool resume_first = g.s->policy != FIFO_RESUME_LAST;
    auto resumes = [&] {
        for (Task *t : g.runq) {
            if (c.size() >= limit) return;
            if (t->thr && !t->thr->stack.empty() && t->thr->stack.back() != t) continue;  // buried: nested execution
            c.push_back({t, nullptr});
        }
    };
    auto readies = [&] {
        size_t n = g.ready.size();
        for (size_t i = 0; i < n && c.size() < limit; i++) {
            Task *t = g.s->policy == LIFO ? g.ready[n - 1 - i] : g.ready[i];
            Thread *th = pick_thread(t);
            if (th) c.push_back({t, th});
        }
    };
    if (resume_first) { resumes(); readies(); } else { readies(); resumes(); }
}
static void remove_q(std::deque<Task*> &q, Task *t) {
    for (size_t i = 0; i < q.size(); i++) if (q[i] == t) { q.erase(q.begin() + i); return; }
}
static void switch_in(Cand c) {
    Task *t = c.t;
    if (c.th) {
        remove_q(g.ready, t);
        t->thr = c.th; c.th->stack.push_back(t); c.th->last = ++g.clock;
        // first segment: after creation, after the ends of all predecessors
        u32 n = newnode(t);
        addanc(n, t->startbase);
        u64 h = t->uid;
        u64 hs = 0;
        for (Task *p : t->preds) { if (!hb(p->endnode, n)) addanc(n, p->endnode); hs += mix(p->uid, 7); }
        g.res->hbhash += mix(h, hs);
        t->node = n; t->split = false;
        start_coroutine(t);
    } else {
        remove_q(g.runq, t); t->inq = false;
    }
    g.cur = t;
    mc_swap(&g.main_sp, t->sp);
    Task *d = t;
    if (d->block == DONE && d->slot >= 0) { g.freeslots.push_back(d->slot); d->slot = -1; }
}

static u64 state_hash(int kind);
static void schedule_loop() {
    std::vector<Cand> c;
    while (g.root->block != DONE) {
        if (forced.t) { Cand k = forced; forced = {nullptr, nullptr}; switch_in(k); continue; }
        c.clear();
        bool rec = record_dec || !g.ord.empty() || g.s->full;
        candidates(c, rec ? 64 : 1);
        if (c.empty()) {
            // release held tasks, then let spinners look again, else deadlock
            if (!g.held.empty()) {
                g.res->hold_timeout = true;
                Task *t = g.held.front(); g.held.erase(g.held.begin()); unblock(t); continue;
            }
            bool woke = false;
            if (!g.s->full) for (size_t i = 0; i < g.spinners.size();) {
                Task *t = g.spinners[i];
                if (t->spin_seen != g.progress || t->spin < 400) {
                    if (t->spin_seen != g.progress) { t->spin_seen = g.progress; t->spin = 1; }
                    g.spinners.erase(g.spinners.begin() + i); unblock(t); woke = true;
                } else i++;
            }
            if (woke) continue;
            std::string m;
            for (Task *t : g.tasks) if (t->block != DONE && !(t->implicit && t->block == BARRIER) && t->block != JOIN) {
                char b[200]; snprintf(b, sizeof b, "%s[%s]%s ", t->name ? t->name : sym((u32)(uintptr_t)t->fn).c_str(), block_name[t->block], t->block == NOTSTARTED && t->npred ? "(deps)" : "");
                if (m.size() < 600) m += b;
            }
            abort_run(DEADLOCK, "no runnable task: " + m);
        }
        size_t k = 0;
        if (rec) {
            if (record_dec) g.res->dec_alts.push_back((int)c.size());
            if (g.s->full && c.size() > 1) g.res->choices.push_back({1, g.dec, (int)c.size() - 1, state_hash(1)});
            auto it = g.ord.find(g.dec);
            if (it != g.ord.end() && (size_t)it->second < c.size()) k = it->second;
        }
        g.dec++;
        switch_in(c[k]);
    }
}

static void add_end(Task *t, u32 e) {
    if (t->parent) t->parent->ends.push_back(e);
    for (TaskGroup *gr = t->created_group; gr; gr = gr->up) gr->ends.push_back(e);
    t->team->ends.push_back(e);
}
static void check_team(Team *tm);
static void finish_task(Task *t) {
    if (t->split) do_split(t);
    t->endnode = t->node; t->done = true; t->block = DONE; g.progress++;
    Thread *th = t->thr;
    if (!th->stack.empty() && th->stack.back() == t) th->stack.pop_back();
    else { for (size_t i = 0; i < th->stack.size(); i++) if (th->stack[i] == t) { th->stack.erase(th->stack.begin() + i); break; } }
    // holds waiting for this task
    for (size_t i = 0; i < g.held.size();) {
        Task *h = g.held[i]; bool rel = false;
        for (auto &ho : g.s->holds) if (ho.task == h->uid && ho.until == t->uid) rel = true;
        if (rel) { g.held.erase(g.held.begin() + i); unblock(h); } else i++;
    }
    if (t == g.root) return;
    if (t->implicit) { // end of the implicit task: final barrier of the team
        Team *tm = t->team; tm->finished++; tm->arrived++;
        // the thread stays available for tasks: keep a pseudo entry so that it can take tasks
        th->stack.insert(th->stack.begin(), t); t->block = BARRIER; // body ended; counts as waiting at the final barrier
        // the coroutine never resumes: release through check_team
        check_team(tm);
        return;
    }
    add_end(t, t->endnode);
    Task *p = t->parent;
    p->nchildren--; t->team->live_tasks--;
    if (p->block == TASKWAIT && p->nchildren == 0) unblock(p);
    for (TaskGroup *gr = t->created_group; gr; gr = gr->up) {
        gr->count--;
        if (gr->count == 0) for (Task *q : g.tasks) if (q->block == GROUPWAIT && q->group == gr) unblock(q);
    }
    if (p->block == UNDEF && p->waitobj == t) unblock(p);
    for (Task *s : t->succ) if (--s->npred == 0) {
        if (s->parent->block == DEPWAIT && s->parent->waitobj == s) unblock(s->parent);
        else g.ready.push_back(s);
    }
    check_team(t->team);
}
static void check_team(Team *tm) {
    if (tm->arrived < tm->n || tm->live_tasks > 0) return;
    // barrier complete
    u32 b = newnode(nullptr);
    for (Task *t : tm->implicit) if (!hb(t->node, b)) addanc(b, t->node);
    for (u32 e : tm->ends) if (!hb(e, b)) addanc(b, e);
    tm->ends.clear(); tm->arrived = 0; g.progress++;
    if (tm->finished == tm->n) {
        for (Task *t : tm->implicit) {
            t->block = DONE; t->endnode = b; t->thr->stack.clear();
            if (t->slot >= 0 && t != g.cur) { g.freeslots.push_back(t->slot); t->slot = -1; }
        }
        Task *e = tm->encounter;
        std::vector<u32> v{b};
        join_into(e, v);
        unblock(e);
        return;
    }
    for (Task *t : tm->implicit) {
        t->node = b; t->split = true; t->ends.clear();
        if (t->block == BARRIER && !t->done) unblock(t);
    }
    // tasks that already finished (mismatched barriers) stay arrived
    for (Task *t : tm->implicit) if (t->done) tm->arrived++;
}

// ------------------------------------------------------------------ visible operations
static void block_current(Block b) { g.cur->block = b; to_scheduler(); }

// ---- full exploration: a state is what every task has observed (its local state is a function of
// that), plus the contents of the shared regions; loops that only read are collapsed to one iteration
static struct { uintptr_t a; size_t n; } fregion[8]; static int nfregion; static u64 fversion;
static inline bool in_fregion(uintptr_t a) { for (int i = 0; i < nfregion; i++) if (a >= fregion[i].a && a < fregion[i].a + fregion[i].n) return true; return false; }
void full_region(void *p, size_t n) { if (nfregion < 8) fregion[nfregion++] = {(uintptr_t)p, n}; }
static u64 load_(uintptr_t a, size_t n) { u64 v = 0; memcpy(&v, (void *)a, n > 8 ? 8 : n); return v; }
static void note_read(u32 pc, u64 v) {
    Task *t = g.cur;
    for (size_t i = 0; i < t->reads.size(); i++) if (t->reads[i].first == pc) { t->reads.resize(i); break; }
    t->reads.push_back({pc, v});
}
static void note_write(u64 v) {
    Task *t = g.cur; for (auto &r : t->reads) t->hist = mix(mix(t->hist, r.first), r.second);
    t->reads.clear(); t->hist = mix(t->hist, v);
}
void full_reset(u64 v) { if (g.s->full) { g.cur->reads.clear(); g.cur->hist = v; } }
static u64 state_hash(int kind) {
    u64 h = mix(kind, 1), all = 0;   // threads of one team are interchangeable: what tells them apart is in `hist` (see omp_get_thread_num)
    for (Task *t : g.tasks) { u64 k = mix(t->implicit ? t->parent ? t->parent->uid : 0 : t->uid, t->hist); for (auto &r : t->reads) k = mix(mix(k, r.first), r.second); all += (mix(k, t == g.cur && kind == 0 ? 99 : t->block == SPIN ? RUNNABLE : t->block)); }
    h = mix(h, all);
    for (int i = 0; i < nfregion; i++) for (size_t j = 0; j < fregion[i].n; j++) h = mix(h, ((u8 *)fregion[i].a)[j]);
    for (auto &o : g.owner) if (o.second) h = mix(h, mix(o.first, o.second->uid));
    return h;
}
static void visible() {
    Task *t = g.cur;
    t->visc++;
    u64 i = g.vis++;
    if (g.s->full) {
        std::vector<Cand> c; candidates(c, 16);
        g.res->choices.push_back({0, i, (int)c.size(), state_hash(0)});
        if (g.res->choices.size() > 20000) abort_run(TIMEOUT, "a thread does not get through");
    }
    if (!record_vis && g.pre.empty()) return;
    std::vector<Cand> c;
    auto it = g.pre.find(i);
    if (record_vis) { candidates(c, 16); g.res->vis_alts.push_back({i, (int)c.size()}); }
    if (it == g.pre.end()) return;
    c.clear();
    candidates(c, 16);
    if (it->second < 1 || (size_t)it->second > c.size()) return;
    forced = c[it->second - 1];
    t->block = RUNNABLE; t->inq = true; g.runq.push_back(t);   // preempted, not blocked
    to_scheduler();
}


static void acquire(uintptr_t a) {
    auto it = g.relnode.find(a);
    if (it == g.relnode.end()) return;
    Task *t = g.cur;
    if (t->split) do_split(t);
    u32 r = it->second;
    if (nodes[r].t && nodes[r].t != t) g.res->hbhash += mix(mix(t->uid, t->visc), mix(nodes[r].t->uid, nodes[r].acc));
    if (hb(r, t->node)) return;
    u32 n = newnode(t);
    addanc(n, t->node); addanc(n, r);
    t->node = n;
}
static void release(uintptr_t a, bool join) {
    Task *t = g.cur;
    if (t->split) do_split(t);
    g.relnode[a] = t->node;
    t->split = true;
}
static void wake_spinners() {
    g.progress++; g.volwrites++;
    for (Task *t : g.spinners) unblock(t);
    g.spinners.clear();
}
static void vol_read(uintptr_t a, u32 pc, size_t n) {
    if (!g.in_run || !g.cur) return;
    Task *t = g.cur;
    visible();
    if (g.s->full) {
        // the same read of the same value after nothing but reads: wait until something is written
        for (;;) {
            u64 v = load_(a, n); bool again = false; for (auto &r : t->reads) if (r.first == pc && r.second == v) again = true;
            if (!again) { note_read(pc, v); break; }
            t->block = SPIN; g.spinners.push_back(t); to_scheduler();
        }
        acquire(a & ~3ull); return;
    }
    if (t->spin_seen != g.progress) { t->spin_seen = g.progress; t->spin = 0; }
    if (++t->spin % 4 == 0) { t->block = SPIN; g.spinners.push_back(t); to_scheduler(); }
    acquire(a & ~3ull);
}
static void vol_write(uintptr_t a, u32 pc) {
    if (!g.in_run || !g.cur) return;
    visible();
    g.cur->spin = 0; if (g.s->full) note_write(pc);
    release(a & ~3ull, false);
    wake_spinners();
}
static void atomic_rmw(uintptr_t a, size_t n, u32 pc) {
    if (!g.in_run || !g.cur) return;
    visible();
    g.cur->spin = 0; if (g.s->full) { note_read(pc, load_(a, n)); note_write(pc); }
    acquire(a & ~3ull);
    release(a & ~3ull, true);
    wake_spinners();
}

// ------------------------------------------------------------------ monitored accesses
static const char *locate_(uintptr_t a, char *buf, size_t n);
static void report_race(u32 n1, u32 pc1, u64 a1, bool w1, u32 pc2, bool w2, uintptr_t addr) {
    Task *t1 = nodes[n1].t, *t2 = g.cur;
    if (!t1 || t1 == t2) return;
    bool same = t1->thr && t2->thr && t1->thr == t2->thr;
    auto &v = same ? g.res->sametid : g.res->races;
    if (!g.seen.insert(mix(mix(t1->uid, t2->uid), same)).second) return;
    if (v.size() > (same ? 4000u : 200u)) return;
    char b[200];
    Race r{t1->uid, t2->uid, a1, t2->acc, pc1, pc2, t1->thr ? t1->thr->tid : -1, t2->thr ? t2->thr->tid : -1, w1, w2, addr, same ? "" : locate_(addr, b, sizeof b), nullptr, nullptr};
    v.push_back(r);
}
static inline void check_cell(Cell &c, u32 gen, bool w, u32 pc, uintptr_t addr, Task *t) {
    u32 cur = t->node;
    if (c.gen != gen) { c.gen = gen; c.w = 0; c.nr = 0; }
    if (w) {
        if (c.w != cur && c.w && !hb(c.w, cur)) report_race(c.w, c.wpc, c.wacc, true, pc, true, addr);
        if (c.nr) {
            u32 n = c.nr < 3 ? c.nr : 3;
            for (u32 i = 0; i < n; i++) if (c.r[i] != cur && !hb(c.r[i], cur)) report_race(c.r[i], c.rpc[i], c.racc[i], false, pc, true, addr);
            if (c.nr > 3) for (auto &o : overflow[c.ovf]) if (o[0] != cur && !hb(o[0], cur)) report_race(o[0], o[1], o[2], false, pc, true, addr);
            c.nr = 0;
        }
        c.w = cur; c.wpc = pc; c.wacc = t->acc;
    } else {
        if (c.w == cur) return;
        if (c.w && !hb(c.w, cur)) report_race(c.w, c.wpc, c.wacc, true, pc, false, addr);
        u32 n = c.nr < 3 ? c.nr : 3;
        for (u32 i = 0; i < n; i++) if (c.r[i] == cur) return;
        for (u32 i = 0; i < n; i++) if (hb(c.r[i], cur)) { c.r[i] = cur; c.rpc[i] = pc; c.racc[i] = (u32)t->acc; return; }
        if (n < 3) { c.r[n] = cur; c.rpc[n] = pc; c.racc[n] = (u32)t->acc; c.nr = n + 1; return; }
        if (c.nr == 3) { c.ovf = (u32)overflow.size(); overflow.push_back({}); }
        auto &o = overflow[c.ovf];
        for (auto &x : o) if (x[0] == cur) return;
        for (auto &x : o) if (hb(x[0], cur)) { x = {cur, pc, (u32)t->acc}; return; }
        o.push_back({cur, pc, (u32)t->acc}); c.nr = 4;
    }
}
static void check_holds(Task *t) {
    for (auto &h : g.s->holds) if (h.task == t->uid && h.acc == t->acc) {
        auto it = g.byuid.find(h.until);
        g.res->holds_hit++;
        if (it != g.byuid.end() && it->second->done) continue;
        t->block = HOLDB; g.held.push_back(t); to_scheduler();
    }
}
static void oob(uintptr_t a, bool w, u32 pc) {
    char b[240];
    abort_run(OOB, std::string(w ? "write" : "read") + " of " + locate_(a, b, sizeof b) + " at " + sym(pc));
}
static inline void access_(uintptr_t a, size_t n, bool w, u32 pc, bool volat = false) {
    if (!g.in_run || !g.cur || n == 0) return;
    Task *t = g.cur;
    uintptr_t off = a - BASE;
    Cell *sh; u32 gen; size_t g0, g1;
    if (off < TOTAL) {
        g0 = off >> 2; g1 = (off + n - 1) >> 2;
        sh = shadow;
        if (off < ARENA && containment) {
            u8 need = w ? 2 : 1;
            for (size_t i = g0; i <= g1; i++) if (!(valid[i] & need)) oob(BASE + (i << 2), w, pc);
        }
        gen = gens[off >> GSH];
    } else {
        int k = a >= glo[0] && a < ghi[0] ? 0 : a >= glo[1] && a < ghi[1] ? 1 : -1;
        if (k < 0) return;
        g0 = (a - glo[k]) >> 2; g1 = (a - glo[k] + n - 1) >> 2; sh = gshadow[k]; gen = run_gen;
    }
    t->acc++;
    if (w) { t->spin = 0; g.progress++; }
    if (++g.res->accesses > access_budget) abort_run(TIMEOUT, "access budget exhausted (endless loop?)");
    if (!g.s->holds.empty()) check_holds(t);
    if (!volat && g.s->full && in_fregion(a)) { visible(); if (w) { note_write(pc); wake_spinners(); } else note_read(pc, load_(a, n)); }
    if (!monitor || volat) return;
    if (t->split) do_split(t);
    for (size_t i = g0; i <= g1; i++) check_cell(sh[i], gen, w, pc, a, t);
}
void touch(const void *p, size_t n, bool write, const void *pc) { access_((uintptr_t)p, n, write, (u32)(uintptr_t)pc); }
bool valid_range(const void *p, size_t n, bool w) {
    uintptr_t off = (uintptr_t)p - BASE;
    if (off >= ARENA) return true;
    for (size_t i = off >> 2; i <= (off + n - 1) >> 2; i++) if (!(valid[i] & (w ? 2 : 1))) return false;
    return true;
}

// ------------------------------------------------------------------ heap
static void *arena_alloc(size_t n, bool lib, const char *name, u32 pc) {
    size_t off = (brk_ + REDZ + 63) & ~63ull;
    size_t end = off + ((n + 3) & ~3ull) + REDZ;
    if (end > ARENA) abort_run(BUDGET, "arena exhausted");
    brk_ = off + ((n + 3) & ~3ull);
    if (brk_ > high) high = brk_;
    u32 i0 = (u32)(off >> GSH), i1 = (u32)((brk_ + REDZ) >> GSH);
    for (u32 i = i0; i <= i1; i++) gens[i] = run_gen;
    char *p = (char *)BASE + off;
    memset(p, lib ? arena_fill : 0xFF, n);
    memset(valid + (off >> 2), 3, (n + 3) >> 2);
    alloc_by_off[off] = (u32)allocs.size();
    allocs.push_back({off, n, lib, false, name, pc, g.cur ? g.cur->uid : 0, true});
    return p;
}
static Alloc *find_alloc(uintptr_t a, bool exact) {
    uintptr_t off = a - BASE;
    if (off >= ARENA) return nullptr;
    auto it = alloc_by_off.upper_bound(off + (exact ? 0 : REDZ));
    if (it == alloc_by_off.begin()) return nullptr;
    --it;
    Alloc *al = &allocs[it->second];
    if (exact) return al->off == off ? al : nullptr;
    if (off < al->off && it != alloc_by_off.begin()) { // before this one: maybe after the previous one
        auto pr = std::prev(it); Alloc *b = &allocs[pr->second];
        if (off < b->off + b->size + REDZ / 2) return b;
    }
    return al;
}
static const char *locate_(uintptr_t a, char *buf, size_t n) {
    uintptr_t off = a - BASE;
    if (off < ARENA) {
        Alloc *al = find_alloc(a, false);
        if (!al) snprintf(buf, n, "arena+%zu", (size_t)off);
        else snprintf(buf, n, "%s+%ld (of %zu bytes%s)", al->lib ? ("block from " + sym(al->pc)).c_str() : al->name, (long)(off - al->off), al->size, al->freed ? ", freed" : "");
    } else if (off < TOTAL) snprintf(buf, n, "a task's stack");
    else snprintf(buf, n, "global %s", sym((u32)a).c_str());
    return buf;
}
const char *locate(uintptr_t a, char *b, size_t n) { return locate_(a, b, n); }
void *ualloc(size_t n, const char *name) { return arena_alloc(n, false, name, 0); }
void uprotect(void *p, size_t n, int rw) { size_t o = (uintptr_t)p - BASE; memset(valid + (o >> 2), rw, (n + 3) >> 2); }
u64 live_allocs(std::string *d) {
    u64 n = 0;
    for (auto &a : allocs) if (a.lib && !a.freed && a.watched) { n++; if (d && d->size() < 500) { char b[120]; snprintf(b, sizeof b, "%zu bytes from %s; ", a.size, sym(a.pc).c_str()); *d += b; } }
    return n;
}
void unwatch_all_live() { for (auto &a : allocs) if (!a.freed) a.watched = false; }
bool was_freed(void *p) { Alloc *a = find_alloc((uintptr_t)p, true); return a && a->freed; }
bool is_library_alloc(void *p) { Alloc *a = find_alloc((uintptr_t)p, true); return a && a->lib; }
u64 alloc_count() { return nalloc; }
static void heap_free(void *p, u32 pc) {
    if (!p) return;
    uintptr_t off = (uintptr_t)p - BASE;
    if (off >= ARENA) { if (g.in_run && g.cur) abort_run(BADFREE, "free of foreign pointer at " + sym(pc)); ::free(p); return; }
    Alloc *a = find_alloc((uintptr_t)p, true);
    if (!a || !a->lib) { char b[200]; abort_run(BADFREE, std::string("free of ") + locate_((uintptr_t)p, b, sizeof b) + " at " + sym(pc)); }
    if (a->freed) abort_run(BADFREE, "double free at " + sym(pc) + " of block from " + sym(a->pc));
    // freeing counts as a write of the whole block: it must be ordered after every use
    if (g.cur && a->size) access_((uintptr_t)p, a->size, true, pc);
    a->freed = true;
    memset(valid + (off >> 2), 0, (a->size + 3) >> 2);
    memset(p, 0xFE, a->size);
}
void lib_free(void *p) { heap_free(p, 0); }
static void *heap_alloc(size_t n, bool zero, u32 pc) {
    if (!g.in_run) { void *p = ::malloc(n ? n : 1); if (zero) memset(p, 0, n); return p; }
    nalloc++; if (n > max_request) max_request = n;
    g.res->allocs = nalloc;
    if (g.s->fail_at && (nalloc == (u64)g.s->fail_at || (g.s->fail_also && nalloc == (u64)g.s->fail_also) || (g.s->fail_at < 0 && nalloc >= (u64)-g.s->fail_at))) return nullptr;
    if (n > (1ull << 30)) return nullptr;
    void *p = arena_alloc(n, true, nullptr, pc);
    if (zero) memset(p, 0, n);
    return p;
}

static std::map<std::string, std::string> env_;
void set_env(const char *n, const char *v) { if (v) env_[n] = v; else env_.erase(n); }
int cur_T() { return g.s ? g.s->T : 1; }

// ------------------------------------------------------------------ symbols
static std::unordered_map<u32, std::string> symcache;
static std::vector<std::pair<u64, std::string>> symtab;
static void load_symtab() {
    char exe[512]; ssize_t k = readlink("/proc/self/exe", exe, sizeof exe - 1); if (k < 0) return; exe[k] = 0;
    std::string cmd = std::string("nm -C --defined-only ") + exe;
    FILE *f = popen(cmd.c_str(), "r"); if (!f) return;
    char line[1024];
    while (fgets(line, sizeof line, f)) { unsigned long long a; char ty; char nm[900]; if (sscanf(line, "%llx %c %899[^\n]", &a, &ty, nm) == 3 && strchr("tTdDbBwW", ty)) symtab.push_back({a, nm}); }
    pclose(f);
    std::stable_sort(symtab.begin(), symtab.end(), [](auto &a, auto &b) { return a.first < b.first; });
}
std::string sym(u32 pc) {
    if (!pc) return "?";
    auto it = symcache.find(pc); if (it != symcache.end()) return it->second;
    if (symtab.empty()) { bool s = g.in_run; g.in_run = false; load_symtab(); g.in_run = s; }
    auto j = std::upper_bound(symtab.begin(), symtab.end(), (u64)pc, [](u64 v, auto &x) { return v < x.first; });
    std::string r = "?";
    if (j != symtab.begin()) { --j; char b[64]; snprintf(b, sizeof b, "+0x%llx", (unsigned long long)(pc - j->first)); r = j->second + (pc != j->first ? b : ""); }
    return symcache[pc] = r;
}

// ------------------------------------------------------------------ signals
static void on_signal(int sig, siginfo_t *si, void *uc) {
    if (sig == SIGVTALRM) {
        if (!g.in_run) return;
        g.aborted = true; g.aout = TIMEOUT; g.amsg = "CPU time limit of one execution";
    } else {
        if (!g.in_run) { signal(sig, SIG_DFL); raise(sig); return; }
        char b[160]; u32 pc = 0;
#ifdef __x86_64__
        pc = (u32)((ucontext_t *)uc)->uc_mcontext.gregs[16];
#endif
        snprintf(b, sizeof b, "signal %d, address %p", sig, si->si_addr);
        g.aborted = true; g.aout = CRASH; g.amsg = b;
        g.amsg += " at pc " + sym(pc);
    }
    sigset_t s; sigemptyset(&s); sigaddset(&s, sig); sigprocmask(SIG_UNBLOCK, &s, nullptr);
    siglongjmp(main_jmp, 1);
}

static char *snap[2];
void init() {
    static bool done = false; if (done) return; done = true;
    void *p = mmap((void *)BASE, TOTAL, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *)BASE) { perror("mmap arena"); exit(3); }
    shadow = (Cell *)mmap(nullptr, (TOTAL >> 2) * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (shadow == MAP_FAILED) { perror("mmap shadow"); exit(3); }
    valid = (u8 *)mmap(nullptr, (ARENA >> 2) + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    nodes = (Node *)mmap(nullptr, MAXNODES * sizeof(Node), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    ancpool = (u64 *)mmap(nullptr, ANCMAX * 8, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    for (int i = 0; i < NSLOT; i++) mprotect((char *)BASE + ARENA + (size_t)i * SLOT, 4096, PROT_NONE);
    glo[0] = (uintptr_t)__start_plasma_data; ghi[0] = (uintptr_t)__stop_plasma_data;
    glo[1] = (uintptr_t)__start_plasma_bss; ghi[1] = (uintptr_t)__stop_plasma_bss;
    for (int k = 0; k < 2; k++) {
        size_t n = ghi[k] - glo[k];
        gshadow[k] = (Cell *)calloc(n / 4 + 8, sizeof(Cell));
        snap[k] = (char *)malloc(n + 1); memcpy(snap[k], (void *)glo[k], n);
    }
    stack_t ss{}; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; sigaltstack(&ss, nullptr);
    struct sigaction sa{}; sa.sa_sigaction = on_signal; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGVTALRM}) sigaction(s, &sa, nullptr);
}

static Task *new_task(Team *tm, Task *parent, void (*fn)(void *), void *data, u64 uid = 0) {
    Task *t = new Task();
    t->uid = uid ? uid : parent ? mix(parent->uid, ++parent->kids) : 1;
    t->parent = parent; t->team = tm; t->fn = fn; t->data = data; t->slot = -1; t->block = NOTSTARTED;
    t->depth = parent ? parent->depth + 1 : 0; t->tied = true;
    t->index = uid ? 0 : g.taskindex++;
    g.tasks.push_back(t); g.byuid[t->uid] = t;
    if (g.res) g.res->tasks++;
    return t;
}
static Team *new_team(int n, Team *up, Task *enc) {
    Team *tm = new Team();
    tm->n = n; tm->up = up; tm->level = up ? up->level + 1 : 0; tm->active = (up ? up->active : 0) + (n > 1 ? 1 : 0); tm->encounter = enc;
    g.teams.push_back(tm);
    for (int i = 0; i < n; i++) { Thread *th = new Thread(); th->tid = i; th->team = tm; g.threads.push_back(th); tm->thr.push_back(th); }
    return tm;
}
static void body_entry(void *) { (*g.body)(); }

extern "C" int mc_lua_live_count(); extern "C" void mc_lua_close_all();


Result run(const Sched &s, const std::function<void()> &body) {
    init();
    Result res;
    // reset
    for (Task *t : g.tasks) { delete t->deps; delete t; } for (Team *t : g.teams) { for (auto w : t->ws) delete w; delete t; }
    for (Thread *t : g.threads) delete t; for (TaskGroup *t : g.groups) delete t;
    for (void *b : g.blobs) free(b);
    g = G();
    g.s = &s; g.res = &res; g.body = &body;
    for (auto &p : s.preempt) g.pre[p.first] = p.second;
    for (auto &p : s.order) g.ord[p.first] = p.second;
    for (int i = NSLOT - 1; i >= 0; i--) g.freeslots.push_back(i);
    nfregion = 0;
    run_gen = ++gen_counter;
    if (gen_counter > 0xF0000000u) { fprintf(stderr, "generation overflow\n"); _exit(9); }
    memset(valid, 0, (high + REDZ + 4096) >> 2);
    brk_ = 4096; high = 0;
    allocs.clear(); alloc_by_off.clear(); nalloc = 0; overflow.clear(); libc_output.clear();
    nnodes = 1; ancused = 0; blas_calls = 0;
    for (int k = 0; k < 2; k++) memcpy((void *)glo[k], snap[k], ghi[k] - glo[k]);
    forced = {nullptr, nullptr};

    Team *tm = new_team(1, nullptr, nullptr); tm->active = 0; tm->level = 0;
    Task *root = new_task(tm, nullptr, body_entry, nullptr);
    root->implicit = true; root->thr = tm->thr[0]; tm->thr[0]->stack.push_back(root); tm->implicit.push_back(root);
    g.root = root;
    itimerval it{}; it.it_value.tv_sec = 20; setitimer(ITIMER_VIRTUAL, &it, nullptr);
    g.in_run = true;
    if (sigsetjmp(main_jmp, 1) == 0) {
        root->node = newnode(root);
        start_coroutine(root);
        root->inq = true; g.runq.push_back(root);
        schedule_loop();
    } else {
        res.out = g.aout; res.msg = g.amsg;
    }
    g.in_run = false; g.cur = nullptr;
    itimerval z{}; setitimer(ITIMER_VIRTUAL, &z, nullptr);
    res.visible = g.vis; res.decisions = g.dec;
    res.live = live_allocs(&res.leaks);
    for (auto &a : allocs) if (a.lib && !a.freed && a.watched) res.live_bytes += a.size;
    res.lua_live = mc_lua_live_count();
    mc_lua_close_all();
    for (auto *v : {&res.races, &res.sametid}) for (auto &r : *v) {
        Task *a = g.byuid[r.t1], *b = g.byuid[r.t2];
        (void)a; (void)b;
    }
    g.s = nullptr; g.res = nullptr;
    return res;
}

std::string Sched::str() const {
    char b[160]; snprintf(b, sizeof b, "T=%d policy=%d tidpol=%d fail_at=%d", T, policy, tidpol, fail_at);
    if (fail_also) snprintf(b + strlen(b), sizeof b - strlen(b), " fail_also=%d", fail_also);
    std::string r = b;
    for (auto &h : holds) { snprintf(b, sizeof b, " hold=%llx@%llu<%llx", (unsigned long long)h.task, (unsigned long long)h.acc, (unsigned long long)h.until); r += b; }
    for (auto &p : preempt) { snprintf(b, sizeof b, " preempt=%llu:%d", (unsigned long long)p.first, p.second); r += b; }
    if (create_points) r += " create_points";
    for (auto &p : order) { snprintf(b, sizeof b, " order=%llu:%d", (unsigned long long)p.first, p.second); r += b; }
    return r;
}

// ------------------------------------------------------------------ OpenMP entry points

static void run_parallel(void (*fn)(void *), void *data, unsigned num) {
    Task *e = g.cur; Team *up = e->team;
    int n = num ? (int)num : g.s->T;
    if (up->active >= 1) n = 1;
    if (n < 1) n = 1;
    if (n > 1100) n = 1100;
    if (e->split) do_split(e);
    Team *tm = new_team(n, up, e);
    u32 base = e->node;
    e->split = true;
    u64 region = mix(e->uid, ++e->kids);
    for (int i = 0; i < n; i++) {
        Task *t = new_task(tm, e, fn, data, mix(region, 1000 + i));
        t->implicit = true; t->thr = tm->thr[i]; t->node = base; t->split = true;
        t->thr->stack.push_back(t); t->thr->last = i;
        tm->implicit.push_back(t);
        start_coroutine(t);
        t->inq = true; g.runq.push_back(t);
    }
    block_current(JOIN);
}
static void do_barrier() {
    Task *t = g.cur; Team *tm = t->team;
    if (!t->implicit) abort_run(HARNESS, "barrier inside an explicit task");
    t->block = BARRIER; tm->arrived++;
    check_team(tm);
    if (t->block == BARRIER) to_scheduler();
    else { // released at once (t was pushed on runq): go through the scheduler to keep order
        to_scheduler();
    }
}
static void submit(Task *t, void **depend, bool undeferred) {
    Task *p = g.cur;
    if (p->split) do_split(p);
    t->startbase = p->node; p->split = true;
    p->nchildren++; p->team->live_tasks++;
    t->created_group = p->group;
    for (TaskGroup *gr = p->group; gr; gr = gr->up) gr->count++;
    if (depend) {
        size_t nd, nout, nmtx = 0, nin, base;
        size_t d0 = (size_t)depend[0];
        if (d0) { nd = d0; nout = (size_t)depend[1]; nin = nd - nout; base = 2; }
        else { nd = (size_t)depend[1]; nout = (size_t)depend[2]; nmtx = (size_t)depend[3]; nin = (size_t)depend[4]; base = 5; }
        if (!p->deps) p->deps = new std::map<uintptr_t, DepEntry>();
        std::map<uintptr_t, int> mode;   // strongest access per address: 2 out, 1 in
        for (size_t i = 0; i < nd; i++) {
            uintptr_t a = (uintptr_t)depend[base + i]; bool out = i < nout + nmtx; 
            if (d0 == 0 && i >= nout + nmtx + nin) { // depobj
                void **ob = (void **)a; a = (uintptr_t)ob[0]; long k = (long)ob[1]; out = k != 1;
            }
            int &m = mode[a]; m = std::max(m, out ? 2 : 1);
        }
        std::set<Task*> pr;
        for (auto &kv : mode) {
            DepEntry &e = (*p->deps)[kv.first];
            if (kv.second == 2) {
                for (Task *x : e.ins) pr.insert(x);
                if (e.ins.empty()) for (Task *x : e.outs) pr.insert(x);
                e.outs = {t}; e.ins.clear();
            } else {
                for (Task *x : e.outs) pr.insert(x);
                e.ins.push_back(t);
            }
        }
        pr.erase(t);
        for (Task *x : pr) { t->preds.push_back(x); if (!x->done) { x->succ.push_back(t); t->npred++; } }
        std::sort(t->preds.begin(), t->preds.end(), [](Task *a, Task *b) { return a->index < b->index; });
    }
    g.progress++;
    if (undeferred) {
        while (t->npred) { p->block = DEPWAIT; p->waitobj = t; to_scheduler(); }
        t->waitobj = p->thr;
        p->block = UNDEF; p->waitobj = t;
        g.ready.push_front(t);
        to_scheduler();
        std::vector<u32> v{t->endnode};
        join_into(p, v);
        return;
    }
    if (t->npred) return;
    g.ready.push_back(t);
    if (g.s->policy == IMMEDIATE) {
        // run the child now on this thread: legal, task creation is a scheduling point
        t->waitobj = p->thr; p->block = UNDEF; p->waitobj = t;
        to_scheduler();
    }
}
static void taskwait() {
    Task *t = g.cur;
    if (t->nchildren) block_current(TASKWAIT);
    if (!t->ends.empty()) { join_into(t, t->ends); t->ends.clear(); }
}
static void group_start() { TaskGroup *gr = new TaskGroup(); gr->up = g.cur->group; g.groups.push_back(gr); g.cur->group = gr; }
static void group_end() {
    Task *t = g.cur; TaskGroup *gr = t->group; if (!gr) return;
    if (gr->count) block_current(GROUPWAIT);
    if (!gr->ends.empty()) join_into(t, gr->ends);
    t->group = gr->up;
}
static void crit_enter(uintptr_t k) {
    visible();
    Task *t = g.cur;
    while (g.owner[k]) { if (g.owner[k] == t) abort_run(DEADLOCK, "critical section entered twice by one task"); g.waiters[k].push_back(t); t->waitobj = (void *)k; block_current(CRITICAL); }
    g.owner[k] = t;
    acquire(k);
}
static void crit_exit(uintptr_t k) {
    release(k, true);
    g.owner[k] = nullptr; g.progress++;
    auto &w = g.waiters[k];
    if (!w.empty()) { Task *n = w.front(); w.pop_front(); unblock(n); }
    for (Task *t : g.spinners) unblock(t);
    g.spinners.clear();
}
static void *blob(size_t n) { void *p = malloc(n + 64); g.blobs.push_back(p); return (void *)(((uintptr_t)p + 63) & ~63ull); }
} // namespace mc
using namespace mc;
#define PC ((u32)(uintptr_t)__builtin_return_address(0))

extern "C" {
void mc_GOMP_parallel(void (*fn)(void *), void *data, unsigned n, unsigned flags) { run_parallel(fn, data, n); }
void mc_GOMP_barrier() { do_barrier(); }
bool mc_GOMP_single_start() { Task *t = g.cur; int k = t->singles++; if (k >= t->team->single_done) { t->team->single_done = k + 1; return true; } return false; }
void *mc_GOMP_single_copy_start() { Task *t = g.cur; int k = t->singles++; if (k >= t->team->single_done) { t->team->single_done = k + 1; return nullptr; } do_barrier(); return t->team->copyprivate; }
void mc_GOMP_single_copy_end(void *d) { g.cur->team->copyprivate = d; do_barrier(); }
static char crit0, atom0;
void mc_GOMP_critical_start() { crit_enter((uintptr_t)&crit0); }
void mc_GOMP_critical_end() { crit_exit((uintptr_t)&crit0); }
void mc_GOMP_critical_name_start(void **p) { crit_enter((uintptr_t)p); }
void mc_GOMP_critical_name_end(void **p) { crit_exit((uintptr_t)p); }
void mc_GOMP_atomic_start() { crit_enter((uintptr_t)&atom0); }
void mc_GOMP_atomic_end() { crit_exit((uintptr_t)&atom0); }
void mc_GOMP_task(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, bool ifc, unsigned flags, void **depend, int prio, void *detach) {
    Task *p = g.cur;
    Task *t = new_task(p->team, p, fn, nullptr);
    t->tied = !(flags & 1); t->final_ = (flags & 2) || p->final_;
    char *d = (char *)blob(asz + aal + 8);
    d = (char *)(((uintptr_t)d + aal - 1) & ~(uintptr_t)(aal - 1));
    if (cpyfn) cpyfn(d, data); else memcpy(d, data, asz);
    t->data = d;
    bool und = !ifc || p->final_;
    submit(t, (flags & 8) ? depend : nullptr, und);
    if (g.s->create_points) visible();
}
void mc_GOMP_taskwait() { taskwait(); }
void mc_GOMP_taskwait_depend(void **dep) { taskwait(); }
void mc_GOMP_taskyield() {}
void mc_GOMP_taskgroup_start() { group_start(); }
void mc_GOMP_taskgroup_end() { group_end(); }
static void taskloop_common(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, unsigned flags, unsigned long num, long start, long end, long step) {
    // flags: 1<<10 nogroup, 1<<11? per libgomp: GOMP_TASK_FLAG_UP 256, GRAINSIZE 512, IF 1024, NOGROUP 2048, REDUCTION 4096
    unsigned long n;
    if (step > 0) n = start < end ? (unsigned long)((end - start + step - 1) / step) : 0;
    else n = start > end ? (unsigned long)((start - end - step - 1) / -step) : 0;
    if (n == 0) return;
    unsigned long nt; 
    if (flags & 512) { unsigned long gs = num ? num : 1; nt = n / gs; if (nt == 0) nt = 1; }
    else { nt = num ? num : (unsigned long)g.cur->team->n; if (nt > n) nt = n; }
    bool ifc = flags & 1024, nogroup = flags & 2048;
    if (!nogroup) group_start();
    unsigned long q = n / nt, r = n % nt; long s = start;
    for (unsigned long i = 0; i < nt; i++) {
        unsigned long c = q + (i < r ? 1 : 0); long e = s + (long)c * step;
        char *d = (char *)blob(asz + aal + 8); d = (char *)(((uintptr_t)d + aal - 1) & ~(uintptr_t)(aal - 1));
        if (cpyfn) cpyfn(d, data); else memcpy(d, data, asz);
        ((long *)d)[0] = s; ((long *)d)[1] = e; s = e;
        Task *p = g.cur; Task *t = new_task(p->team, p, fn, d); t->tied = !(flags & 1);
        t->final_ = (flags & 2) || p->final_;
        submit(t, nullptr, !ifc || p->final_);
    }
    if (!nogroup) group_end();
}
void mc_GOMP_taskloop(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, unsigned flags, unsigned long num, int prio, long start, long end, long step) { taskloop_common(fn, data, cpyfn, asz, aal, flags, num, start, end, step); }
void mc_GOMP_taskloop_ull(void (*fn)(void *), void *data, void (*cpyfn)(void *, void *), long asz, long aal, unsigned flags, unsigned long num, int prio, unsigned long long start, unsigned long long end, unsigned long long step) { taskloop_common(fn, data, cpyfn, asz, aal, flags, num, (long)start, (long)end, (long)step); }
// worksharing loops and sections: chunks are handed out in scheduling order
static WorkShare *ws_get(bool *isnew) {
    Task *t = g.cur; int k = t->wsidx; Team *tm = t->team;
    *isnew = false;
    while ((int)tm->ws.size() <= k) { tm->ws.push_back(new WorkShare()); *isnew = true; }
    return tm->ws[k];
}
static bool ws_next(long *a, long *b) {
    Task *t = g.cur; WorkShare *w = t->team->ws[t->wsidx];
    visible();
    if (w->incr > 0 ? w->next >= w->end : w->next <= w->end) return false;
    long c = w->chunk * w->incr; *a = w->next; long e = w->next + c;
    if (w->incr > 0 ? e > w->end : e < w->end) e = w->end;
    *b = e; w->next = e; return true;
}
static bool loop_start(long s, long e, long inc, long chunk, long *a, long *b) {
    bool nw; WorkShare *w = ws_get(&nw);
    if (nw) *w = {s, e, inc, chunk > 0 ? chunk : 1, 0, 0};
    return ws_next(a, b);
}
bool mc_GOMP_loop_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool mc_GOMP_loop_nonmonotonic_dynamic_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool mc_GOMP_loop_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool mc_GOMP_loop_nonmonotonic_guided_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool mc_GOMP_loop_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool mc_GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long *a, long *b) { return loop_start(s, e, i, 1, a, b); }
bool mc_GOMP_loop_static_start(long s, long e, long i, long c, long *a, long *b) { return loop_start(s, e, i, c, a, b); }
bool mc_GOMP_loop_dynamic_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_nonmonotonic_dynamic_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_guided_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_nonmonotonic_guided_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_runtime_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_maybe_nonmonotonic_runtime_next(long *a, long *b) { return ws_next(a, b); }
bool mc_GOMP_loop_static_next(long *a, long *b) { return ws_next(a, b); }
void mc_GOMP_loop_end() { g.cur->wsidx++; do_barrier(); }
void mc_GOMP_loop_end_nowait() { g.cur->wsidx++; }
struct PL { void (*fn)(void *); void *data; long s, e, i, c; };
static void pl_entry(void *v) { PL *p = (PL *)v; bool nw; WorkShare *w = ws_get(&nw); if (nw) *w = {p->s, p->e, p->i, p->c > 0 ? p->c : 1, 0, 0}; p->fn(p->data); }
static void par_loop(void (*fn)(void *), void *data, unsigned n, long s, long e, long i, long c) { PL *p = (PL *)blob(sizeof(PL)); *p = {fn, data, s, e, i, c}; run_parallel(pl_entry, p, n); }
void mc_GOMP_parallel_loop_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
void mc_GOMP_parallel_loop_nonmonotonic_dynamic(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
void mc_GOMP_parallel_loop_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
void mc_GOMP_parallel_loop_nonmonotonic_guided(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
void mc_GOMP_parallel_loop_static(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, long c, unsigned f) { par_loop(fn, d, n, s, e, i, c); }
void mc_GOMP_parallel_loop_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
void mc_GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void *), void *d, unsigned n, long s, long e, long i, unsigned f) { par_loop(fn, d, n, s, e, i, 1); }
unsigned mc_GOMP_sections_start(unsigned n) { long a, b; return loop_start(1, (long)n + 1, 1, 1, &a, &b) ? (unsigned)a : 0; }
unsigned mc_GOMP_sections_next() { long a, b; return ws_next(&a, &b) ? (unsigned)a : 0; }
void mc_GOMP_sections_end() { g.cur->wsidx++; do_barrier(); }
void mc_GOMP_sections_end_nowait() { g.cur->wsidx++; }
void mc_GOMP_parallel_sections(void (*fn)(void *), void *d, unsigned n, unsigned cnt, unsigned f) { par_loop(fn, d, n, 1, (long)cnt + 1, 1, 1); }

int mc_omp_get_thread_num() { if (g.s && g.s->full && g.cur && g.cur->thr) note_write(1000 + g.cur->thr->tid); return g.cur && g.cur->thr ? g.cur->thr->tid : 0; }
int mc_omp_get_num_threads() { return g.cur ? g.cur->team->n : 1; }
int mc_omp_get_max_threads() { return g.s ? g.s->T : 1; }
int mc_omp_get_num_procs() { return g.s ? g.s->T : 1; }
int mc_omp_get_thread_limit() { return 1024; }
int mc_omp_in_parallel() { return g.cur ? g.cur->team->active > 0 : 0; }
int mc_omp_get_level() { return g.cur ? g.cur->team->level : 0; }
int mc_omp_get_active_level() { return g.cur ? g.cur->team->active : 0; }
int mc_omp_get_dynamic() { return 0; }
int mc_omp_get_nested() { return 0; }
int mc_omp_get_max_active_levels() { return 1; }
int mc_omp_in_final() { return g.cur && g.cur->final_; }
void mc_omp_set_num_threads(int) {}
void mc_omp_set_dynamic(int) {}
void mc_omp_set_nested(int) {}
void mc_omp_set_max_active_levels(int) {}
double mc_omp_get_wtime() { return (double)g.clock; }
void mc_omp_init_lock(void *) {}
void mc_omp_destroy_lock(void *) {}
void mc_omp_set_lock(void *l) { crit_enter((uintptr_t)l); }
void mc_omp_unset_lock(void *l) { crit_exit((uintptr_t)l); }
int mc_omp_test_lock(void *l) { visible(); if (g.owner[(uintptr_t)l]) return 0; g.owner[(uintptr_t)l] = g.cur; acquire((uintptr_t)l); return 1; }

// ---- libc
void *mc_malloc(size_t n) { return heap_alloc(n, false, PC); }
void *mc_calloc(size_t a, size_t b) { return heap_alloc(a * b, true, PC); }
void mc_free(void *p) { heap_free(p, PC); }
void *mc_realloc(void *p, size_t n) {
    void *q = heap_alloc(n, false, PC); if (!q) return q;
    if (p) { Alloc *a = find_alloc((uintptr_t)p, true); if (a) memcpy(q, p, std::min(n, a->size)); heap_free(p, PC); }
    return q;
}
int mc_posix_memalign(void **p, size_t al, size_t n) { void *q = heap_alloc(n, false, PC); if (!q) return 12; *p = q; return 0; }
void *mc_aligned_alloc(size_t al, size_t n) { return heap_alloc(n, false, PC); }
void *mc_memcpy(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, false, PC); access_((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void *mc_memmove(void *d, const void *s, size_t n) { access_((uintptr_t)s, n, false, PC); access_((uintptr_t)d, n, true, PC); return memmove(d, s, n); }
void *mc_memset(void *d, int c, size_t n) { access_((uintptr_t)d, n, true, PC); return memset(d, c, n); }
void mc_exit(int c) { abort_run(EXITED, "exit(" + std::to_string(c) + ") called at " + sym(PC)); }
void mc_abort() { abort_run(EXITED, "abort() called at " + sym(PC)); }
void mc___assert_fail(const char *a, const char *f, unsigned l, const char *fn) { abort_run(ASSERT, std::string(a) + " in " + (fn ? fn : "?")); }
static int out_(const char *f, va_list ap) { char b[512]; int r = vsnprintf(b, sizeof b, f, ap); if (libc_output.size() < 50) libc_output.push_back(b); return r; }
int mc_printf(const char *f, ...) { va_list ap; va_start(ap, f); int r = out_(f, ap); va_end(ap); return r; }
int mc_fprintf(FILE *, const char *f, ...) { va_list ap; va_start(ap, f); int r = out_(f, ap); va_end(ap); return r; }
int mc_puts(const char *s) { libc_output.push_back(s); return 1; }
int mc_putchar(int c) { return c; }
int mc_fputs(const char *s, FILE *) { libc_output.push_back(s); return 1; }
size_t mc_fwrite(const void *p, size_t a, size_t b, FILE *) { libc_output.push_back(std::string((const char *)p, a * b)); return b; }
void mc_perror(const char *s) { libc_output.push_back(s); }
static int spin_hint() { if (!g.in_run || !g.cur || g.s->full) return 0; Task *t = g.cur; if (t->spin_seen != g.progress) { t->spin_seen = g.progress; t->spin = 0; } t->spin++; t->block = SPIN; g.spinners.push_back(t); to_scheduler(); return 0; }
int mc_sched_yield() { return spin_hint(); }
int mc_usleep(unsigned) { return spin_hint(); }
int mc_nanosleep(const void *, void *) { return spin_hint(); }
const char *mc_getenv(const char *n) { auto it = env_.find(n); return it == env_.end() ? nullptr : it->second.c_str(); }

// ---- instrumentation hooks
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(N) \
 void __tsan_read##N(void *a) { access_((uintptr_t)a, N, false, PC); } \
 void __tsan_write##N(void *a) { access_((uintptr_t)a, N, true, PC); } \
 void __tsan_unaligned_read##N(void *a) { access_((uintptr_t)a, N, false, PC); } \
 void __tsan_unaligned_write##N(void *a) { access_((uintptr_t)a, N, true, PC); } \
 void __tsan_volatile_read##N(void *a) { access_((uintptr_t)a, N, false, PC, true); vol_read((uintptr_t)a, PC, N); } \
 void __tsan_volatile_write##N(void *a) { access_((uintptr_t)a, N, true, PC, true); vol_write((uintptr_t)a, PC); } \
 void __tsan_unaligned_volatile_read##N(void *a) { __tsan_volatile_read##N(a); } \
 void __tsan_unaligned_volatile_write##N(void *a) { __tsan_volatile_write##N(a); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, size_t n) { access_((uintptr_t)a, n, false, PC); }
void __tsan_write_range(void *a, size_t n) { access_((uintptr_t)a, n, true, PC); }
void __tsan_vptr_update(void **, void *) {}
void __tsan_vptr_read(void **) {}
#define AT(B, T) \
 T __tsan_atomic##B##_load(const volatile T *a, int) { access_((uintptr_t)a, sizeof(T), false, PC, true); vol_read((uintptr_t)a, PC, sizeof(T)); return *a; } \
 void __tsan_atomic##B##_store(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); vol_write((uintptr_t)a, PC); *a = v; } \
 T __tsan_atomic##B##_exchange(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = v; return o; } \
 T __tsan_atomic##B##_fetch_add(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = o + v; return o; } \
 T __tsan_atomic##B##_fetch_sub(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = o - v; return o; } \
 T __tsan_atomic##B##_fetch_or(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = o | v; return o; } \
 T __tsan_atomic##B##_fetch_and(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = o & v; return o; } \
 T __tsan_atomic##B##_fetch_xor(volatile T *a, T v, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; *a = o ^ v; return o; } \
 int __tsan_atomic##B##_compare_exchange_strong(volatile T *a, T *e, T v, int, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; if (o == *e) { *a = v; return 1; } *e = o; return 0; } \
 int __tsan_atomic##B##_compare_exchange_weak(volatile T *a, T *e, T v, int x, int y) { return __tsan_atomic##B##_compare_exchange_strong(a, e, v, x, y); } \
 T __tsan_atomic##B##_compare_exchange_val(volatile T *a, T e, T v, int, int) { access_((uintptr_t)a, sizeof(T), true, PC, true); atomic_rmw((uintptr_t)a, sizeof(T), PC); T o = *a; if (o == e) *a = v; return o; }
AT(8, u8) AT(16, u16) AT(32, u32) AT(64, u64)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
