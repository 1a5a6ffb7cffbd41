// C15: the thread barrier, all interleavings.
#include "ck.h"
#include <array>
#include <algorithm>
extern "C" {
#include "plasma_barrier.h"
void mc_GOMP_parallel(void (*)(void *), void *, unsigned, unsigned);
int mc_omp_get_thread_num();
}
using namespace mc;
// N threads in `groups` equal groups, each with a barrier of its own, go through R rounds.
struct Bar { int N, R, groups; plasma_barrier_t *b; int *data; int arrived[8], left[8]; bool reinit; };
static void thread_body(void *v) {
    Bar *B = (Bar *)v; int me = mc_omp_get_thread_num(), sz = B->N / B->groups, g = me / sz;
    for (int r = 0; r < B->R; r++) {
        int *mine = &B->data[r * B->N + me]; touch(mine, 4, true, (void *)thread_body); *mine = r + 1;
        B->arrived[me] = r + 1; full_reset(100 + r + 1000 * g);
        plasma_barrier_wait(&B->b[g], sz);
        full_reset(200 + r + 1000 * g);
        for (int j = g * sz; j < (g + 1) * sz; j++) {
            if (B->arrived[j] < r + 1) { char b[160]; snprintf(b, sizeof b, "thread %d passed barrier %d of %d before thread %d arrived", me, r + 1, B->R, j); fail(ASSERT, b); }
            int *p = &B->data[r * B->N + j]; touch(p, 4, false, (void *)thread_body);
            if (*p != r + 1) fail(ASSERT, "a value written before the barrier is not seen after it");
        }
        B->left[me] = r + 1;
    }
}
static bool one(Bar B, const Sched &s, Result &r) {
    r = run(s, [&] {
        B.b = (plasma_barrier_t *)ualloc(sizeof(plasma_barrier_t) * B.groups, "barrier"); memset((void *)B.b, 0x5a, sizeof(plasma_barrier_t) * B.groups);
        B.data = (int *)ualloc(sizeof(int) * B.N * B.R, "data"); memset(B.data, 0, sizeof(int) * B.N * B.R);
        for (int i = 0; i < B.groups; i++) plasma_barrier_init(&B.b[i]);
        full_region(B.b, sizeof(plasma_barrier_t) * B.groups);
        memset(B.arrived, 0, sizeof B.arrived); memset(B.left, 0, sizeof B.left);
        mc_GOMP_parallel(thread_body, &B, B.N, 0);
        for (int i = 0; i < B.N; i++) if (B.left[i] != B.R) fail(ASSERT, "a thread did not get through");
    });
    K.account(r);
    char w[64]; snprintf(w, sizeof w, "%d threads, %d rounds: ", B.N, B.R);
    if (r.out != OK) { K.viol(std::string("barrier:") + outcome_name[r.out], w + r.msg, s.str()); return false; }
    // races on the barrier object itself are judged by what they lead to: its accesses are all interleaved
    r.races.erase(std::remove_if(r.races.begin(), r.races.end(), [](const Race &x) { return x.where.compare(0, 7, "barrier") == 0; }), r.races.end());
    if (!r.races.empty()) { K.viol("barrier:unordered", std::string(w) + "accesses before and after the barrier are not ordered: " + r.races[0].where, s.str()); return false; }
    return true;
}
CHECK(C15) {
    containment = true; monitor = true;
    std::vector<std::array<int, 3>> cfg;
    for (int N = 1; N <= 3; N++) for (int R = 1; R <= 3; R++) cfg.push_back({N, R, 1});
    cfg.push_back({4, 1, 1}); cfg.push_back({4, 2, 1}); cfg.push_back({4, 2, 2}); cfg.push_back({2, 5, 1});
    if (K.tier) { cfg.push_back({4, 3, 1}); cfg.push_back({5, 1, 1}); cfg.push_back({5, 2, 1}); cfg.push_back({6, 2, 2}); cfg.push_back({3, 5, 1}); cfg.push_back({2, 8, 1}); }
    for (auto &k : cfg) {
        char key[100]; snprintf(key, sizeof key, "barrier threads=%d rounds=%d groups=%d", k[0], k[1], k[2]);
        if (!K.only.empty()) { K.idx++; if (K.only != key) continue; } else if (!K.mine()) continue;
        K.begin(key); Bar B{}; B.N = k[0]; B.R = k[1]; B.groups = k[2];
        std::unordered_set<u64> seen; u64 execs = 0, full = 0; bool ok = true;
        typedef std::vector<std::pair<int, std::pair<u64, int>>> Pre;
        std::vector<Pre> work{{}};
        while (!work.empty() && ok) {
            if (K.stop()) break;
            if (execs > (K.tier ? 4000000u : 400000u)) { K.extra["truncated"]++; break; }
            Pre p = work.back(); work.pop_back();
            Sched s = sched(B.N); s.full = true;
            for (auto &x : p) if (x.first == 0) s.preempt.push_back(x.second); else s.order.push_back(x.second);
            Result r; ok = one(B, s, r); execs++;
            // choices after the prefix: stop at the first state met before
            size_t from = 0; if (!p.empty()) for (; from < r.choices.size(); from++) if (r.choices[from].kind == p.back().first && r.choices[from].idx == p.back().second.first) { from++; break; }
            size_t i = from;
            for (; i < r.choices.size(); i++) {
                auto &c = r.choices[i];
                if (!seen.insert(c.state).second) break;
                for (int a = 1; a <= c.alts; a++) { Pre q = p; q.push_back({c.kind, {c.idx, a}}); work.push_back(q); }
            }
            if (i == r.choices.size()) full++;
        }
        K.extra["barrier_states"] += seen.size(); K.extra["barrier_executions"] += execs; K.states += seen.size();
        if (B.N > 1) K.interesting();
        K.sample(std::string(key) + ": " + std::to_string(seen.size()) + " states, " + std::to_string(execs) + " executions, every interleaving");
    }
}
