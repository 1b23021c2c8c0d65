// C01: what surrounds the event loop of a decode on a graph without negative weights: every detection event given is
// decoded once, a matching that is not perfect is rejected, and the result combines the matching of every event once.
#include "decode.h"
#define A Mwpm *m, const Events *e, u64 gn, u64 gd, bool valid
EVENTS(c01_events)
VC void c01_events(A) { events(m, e, gn, gd, valid, true); }
#undef A
#define A Mwpm *m, const Events *e, u64 gd
TAKE(c01_take)
VC void c01_take(A) { take(m, e, gd); }
TAKE(c01_take_edges)
VC void c01_take_edges(A) { take_edges(m, e, gd); }
#undef A
