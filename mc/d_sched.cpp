// S01..S07: every schedule of a call gives the same result.
#include "explore.h"
static int none(const Case &) { return 0; }
// threads that share a panel or the bulge chasing talk through volatile variables
static int spin(const Case &cs) { return cs.env.npt > 1 ? 1 + K.tier : routine_of(cs.key).find("gesdd") != std::string::npos ? 2 + 16 : 0; }
CHECK(S01) { sch({enum_blas, enum_util}, none); }
CHECK(S02) { sch({enum_chol}, none); }
CHECK(S03) { sch({enum_lu, enum_mixed}, spin); }
CHECK(S04) { sch({enum_qr}, none); }
CHECK(S05) { sch({enum_aasen}, spin); }
CHECK(S06) { sch({enum_svd}, spin); }
CHECK(S07) { sch({enum_norm}, none); }
