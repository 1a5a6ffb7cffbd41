// C12: every single-tile kernel against its definition.
#include "ck.h"
using namespace mc;
void enum_core(Sink &);
CHECK(C12) {
    containment = true; monitor = true;
    each_case(G_NUM, {enum_core}, [&](Case &cs) {
        Run r; exec(cs, sched(1), r);
        if (r.c.ncalls) K.interesting();
        if (r.r.out != OK) { K.viol(routine_of(cs.key) + ":" + outcome_name[r.r.out], r.r.msg); return; }
        for (auto &b : r.c.bad) if (b.cat & (NUM | RC | IN)) { K.viol(routine_of(cs.key) + ":" + (b.cat == RC ? "status" : b.cat == IN ? "unchanged-part" : "value"), b.what); break; }
        if (K.cases % 8192 == 1) K.sample(cs.key + " matches its definition");
    });
}
