#include "ck.h"
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <sys/mman.h>
using namespace mc;
Ck K;
static std::map<std::string, CheckFn> &regs() { static std::map<std::string, CheckFn> m; return m; }
Reg::Reg(const char *id, CheckFn f) { regs()[id] = f; }
std::string oneline(std::string s) { for (auto &c : s) if (c == '\n' || c == '\t' || c == '\r') c = ' '; return s; }
std::string routine_of(const std::string &k) { return k.substr(0, k.find(' ')); }
static double now() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
bool Ck::stop() { return stopped = stopped || now() > deadline || viols > 6000; }
void Ck::begin(const std::string &key) {
    if ((cases & 15) == 0) stop();
    cur = key; cases++;
    if (status) { char b[300]; int n = snprintf(b, sizeof b, "%ld\t%s\n", idx, key.c_str()); memcpy(status, b, n + 1); }
    if (verbose) { fprintf(stderr, "[%ld] %s\n", idx, key.c_str()); }
}
void Ck::viol(const std::string &sig, const std::string &detail, const std::string &sch) {
    viols++;
    int &n = sigcount[sig];
    if (n++ >= 2000) return;
    printf("V\t%ld\t%s\t%s\t%s\t%s\n", idx, oneline(sig).c_str(), oneline(cur).c_str(), oneline(detail).c_str(), oneline(sch).c_str());
    fflush(stdout);
}
void Ck::report() {
    auto p = [](const char *k, u64 v) { printf("S\t%s\t%llu\n", k, (unsigned long long)v); };
    p("cases", cases); p("execs", execs); p("states", states); p("trans", trans); p("accesses", accesses); p("nontrivial", nontrivial); p("distinct", distinct ? distinct : keys.size()); if (stopped) p("incomplete", 1); p("viols", viols); p("total", idx + 1);
    for (auto &e : extra) p(e.first.c_str(), e.second);
    for (auto &s : samples) printf("X\t%s\n", oneline(s).c_str());
    printf("E\n"); fflush(stdout);
}
Sched sched(int T, int pol, int tid) { Sched s; s.T = T; s.policy = pol; s.tidpol = tid; return s; }
void exec(const Case &cs, const Sched &s, Run &out, RunOpt o) {
    out.c = Cx(); out.c.env = cs.env; out.c.mode = o.mode;
    Cx &c = out.c;
    out.r = mc::run(s, [&] { c.start(); if (!c.oom) cs.body(c); c.finish(); });
    K.account(out.r);
}
void each_case(Grid g, const std::vector<void (*)(Sink &)> &fams, const std::function<void(Case &)> &f, const char *suffix) {
    Sink S; S.grid = g; S.tier = g == G_BIG ? K.thorough : K.tier;
    S.mine = [&] { if (!K.only.empty()) { K.idx++; return true; } return K.mine(); };
    S.put = [&](Case &&c) { c.key += suffix; if (!K.only.empty() && c.key != K.only) return; K.begin(c.key); f(c); };
    for (auto e : fams) e(S);
}
int main(int argc, char **argv) {
    if (argc < 2) { for (auto &r : regs()) printf("%s\n", r.first.c_str()); return 0; }
    K.id = argv[1];
    for (int i = 2; i < argc; i++) {
        std::string a = argv[i];
        if (a == "--tier") { K.thorough = std::string(argv[++i]) == "thorough"; K.tier = K.thorough; }
        else if (a == "--worker") sscanf(argv[++i], "%d/%d", &K.w, &K.W);
        else if (a == "--only") K.only = argv[++i];
        else if (a == "--idx") K.only_idx = atol(argv[++i]);
        else if (a == "--from") K.from = atol(argv[++i]);
        else if (a == "--to") K.to = atol(argv[++i]);
        else if (a == "--deadline") K.deadline = now() + atof(argv[++i]);
        else if (a == "--skip") K.skip.insert(atol(argv[++i]));
        else if (a == "--sched") { K.replay_sched = argv[++i]; K.have_replay = true; }
        else if (a == "-v") K.verbose = true;
        else if (a == "--status") { int fd = open(argv[++i], O_RDWR | O_CREAT, 0644); if (ftruncate(fd, 4096)) return 9; K.status = (char *)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0); }
    }
    auto it = regs().find(K.id);
    if (it == regs().end()) { fprintf(stderr, "unknown check %s\n", K.id.c_str()); return 9; }
    // cheap checks always enumerate the large bounds
    static const std::set<std::string> whole = {"N01", "N02", "N05", "N06", "N09", "S02", "C10", "C12", "C13", "C14"};
    if (whole.count(K.id)) K.tier = 1;
    mc::init();
    it->second();
    K.report();
    fflush(stdout);
    _exit(0);
}
