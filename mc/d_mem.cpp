// C03: every access of every case stays inside the objects it may touch.
#include "ck.h"
using namespace mc;
static std::string memsig(const Case &cs, const std::string &msg) {
    return routine_of(cs.key) + ":" + msg.substr(0, msg.find(" at ") == std::string::npos ? 60 : msg.find(" at "));
}
static void mem(const std::vector<void (*)(Sink &)> &f, Grid g = G_MEM) {
    containment = true; monitor = false;
    for (Grid h : {g, G_DEEP, G_BIG}) each_case(h, f, [&](Case &cs) {
        Run r; exec(cs, sched(h == g ? 3 : h == G_DEEP ? 17 : 5), r);
        if (r.r.accesses) K.interesting();
        if (r.r.out == OOB || r.r.out == BADFREE || r.r.out == CRASH) { K.viol(routine_of(cs.key) + ":" + outcome_name[r.r.out], r.r.msg); return; }
        for (auto &b : r.c.bad) if (b.cat & IN) { K.viol(routine_of(cs.key) + ":changed", b.what); break; }
        if (K.cases % 1024 == 1) K.sample(cs.key + ": " + std::to_string(r.r.accesses) + " monitored accesses, all inside their objects");
    });
}
CHECK(C03) { mem({enum_blas, enum_util, enum_norm, enum_chol, enum_lu, enum_qr, enum_aasen, enum_svd, enum_mixed}); }
CHECK(XMEM) { mem({enum_chol, enum_lu, enum_qr, enum_aasen, enum_svd, enum_mixed}, G_NUM); }
