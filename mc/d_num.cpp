// N checks: every case of a family against its reference.
#include "ck.h"
using namespace mc;
typedef std::vector<void (*)(Sink &)> Fams;
static void num(const Fams &f) {
    containment = false; monitor = false;
    for (int pass = 0; pass < 4; pass++) { const Grid g = pass == 0 ? G_NUM : pass == 1 ? G_DEEP : pass == 2 ? G_FAULT : G_BIG; each_case(g, f, [&](Case &cs) {
        if (pass == 2) { if (routine_of(cs.key) == "sgesdd") return;    // passes the vectors on to OpenBLAS, whose single precision kernel gathers with 32-bit indices
            cs.env.huge = true; K.extra["huge_leading_dimension"]++; }
        Run r; exec(cs, sched(g == G_DEEP ? 17 : g == G_BIG ? 4 : 3, g == G_DEEP ? LIFO : FIFO), r);
        if (r.r.accesses > 0) K.interesting();
        if (r.r.out != OK) { K.viol(routine_of(cs.key) + ":" + outcome_name[r.r.out], r.r.msg); return; }
        for (auto &b : r.c.bad) if (b.cat & (NUM | RC | IN)) { K.viol(routine_of(cs.key) + ":" + (b.cat == RC ? "status" : b.cat == IN ? "unchanged-part" : "value"), b.what); return; }
        if (K.cases % 4096 == 1) K.sample(cs.key + " -> " + std::to_string(r.c.outs.size()) + " outputs match the reference, " + std::to_string(r.r.accesses) + " accesses");
    }, pass == 2 ? " huge" : ""); }
}
CHECK(N01) { num({enum_blas}); }
CHECK(N07) { num({enum_norm}); }
CHECK(N08) { num({enum_util}); }
CHECK(N02) { num({enum_chol}); }
CHECK(N03) { num({enum_lu}); }
CHECK(N04) { num({enum_qr}); }
CHECK(N05) { num({enum_aasen}); }
CHECK(N06) { num({enum_svd}); }
CHECK(N09) { num({enum_mixed}); }
