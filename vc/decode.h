// What a decode does around the event loop (contracts of C01 and C17): which detection events are decoded, and taking
// the matching out for a list of events.
#pragma once
// Specification variables: gn an arbitrary node, gd an arbitrary position in the list of detection events.
// vc_fn1(1, n): where node n is listed among the detection events; vc_fn1(2, n): among the events of negative edges;
// vc_fn1(3, n): whether node n is a boundary node of the user's graph; vc_fn1(4, 0): number of nodes that was recorded for.
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "vc.h"
using namespace pm;
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
void process_timeline_until_completion(Mwpm &mwpm, const std::vector<uint64_t> &detection_events);
MatchingResult shatter_blossoms_for_all_detection_events_and_extract_obs_mask_and_weight(Mwpm &mwpm, const std::vector<uint64_t> &detection_events);
void shatter_blossoms_for_all_detection_events_and_extract_match_edges(Mwpm &mwpm, const std::vector<uint64_t> &detection_events);
struct Events { std::vector<uint64_t> d; };
struct Ghost17 { u64 word, m, node, created, runs, pending, bad, resets, type, want, calls, order; };
static inline Ghost17 *gs() { return (Ghost17 *)vc_ghost(); }
VC u64 contract_flags(const void *v) { return vc_fn1(4, 0); }
struct BitRef { u64 *word; u64 mask; };
VC BitRef contract_flag(const void *v, u64 i) {
    BitRef r;
    r.word = &gs()->word;
    r.mask = vc_fn1(3, i) & 1;
    return r;
}
VC bool contract_flag_value(const void *v, u64 i) { return (vc_fn1(3, i) & 1) != 0; }
VC void contract_create(Mwpm *m, DetectorNode *n) {
    Ghost17 *g = gs();
    g->created = g->created + (u64)vc_sel(U(n) == g->node, 1, 0);
    g->bad = g->bad | (u64)vc_sel((g->runs != 0) | (U(m) != g->m), 1, 0);
}
VC void contract_next(MwpmEvent *out, GraphFlooder *f) {
    Ghost17 *g = gs();
    g->bad = g->bad | (u64)vc_sel((g->pending != 0) | (U(f) != U(&((Mwpm *)g->m)->flooder)), 1, 0);
    g->runs = 1;
    u64 t = vc_any_u64();
    vc_assume(t <= 3);
    out->event_type = (MwpmEventType)t;
    g->type = t;
    g->pending = (u64)vc_sel(t != (u64)NO_EVENT, 1, 0);
}
VC void contract_handle(Mwpm *m, const MwpmEvent *e) {
    Ghost17 *g = gs();
    g->bad = g->bad | (u64)vc_sel((g->pending == 0) | (U(m) != g->m) | ((u64)e->event_type != g->type), 1, 0);
    g->pending = 0;
}
VC void contract_reset(Mwpm *m) {
    gs()->resets = gs()->resets + 1;
    gs()->bad = gs()->bad | (u64)vc_sel(U(m) != gs()->m, 1, 0);
}
#define A Mwpm *m, const Events *e, u64 gn, u64 gd, bool valid
static inline u64 nn(Mwpm *m) { return m->flooder.graph.nodes.size(); }
static inline const std::vector<uint64_t> &neg(Mwpm *m) { return m->flooder.negative_weight_detection_events; }
static inline bool listed(const Events *e, u64 n) { u64 k = vc_fn1(1, n); return (k < e->d.size()) & (e->d[k] == n); }
static inline bool in_neg(Mwpm *m, u64 n) { u64 k = vc_fn1(2, n); return (k < neg(m).size()) & (neg(m)[k] == n); }
static inline bool user_boundary(u64 n) { return (n < vc_fn1(4, 0)) & ((vc_fn1(3, n) & 1) != 0); }
static inline int64_t &mark(Mwpm *m, u64 n) { return (int64_t &)m->flooder.graph.nodes[n].radius_of_arrival; }
// the mark of gn while negative-weight events are being marked / compared with the detection events / turned into events
#define EVENTS(N) \
VC bool N##__fmlOnce(A, u64 i) { return (i >= e->d.size()) | (vc_fn1(1, e->d[i]) == i); } \
VC bool N##__fmlNegOnce(A, u64 i) { return (i >= neg(m).size()) | ((vc_fn1(2, neg(m)[i]) == i) & (neg(m)[i] < nn(m))); } \
VC bool N##__fmlValid(A, u64 i) { return !valid | (i >= e->d.size()) | (e->d[i] < nn(m)); } \
VC bool N##__invMark(A, u64 i) { return mark(m, gn) == (int64_t)vc_sel(in_neg(m, gn) & (vc_fn1(2, gn) < i), 1, 0); } \
VC bool N##__invUnmark(A, u64 i) { return mark(m, gn) == (int64_t)vc_sel(in_neg(m, gn) & !(listed(e, gn) & (vc_fn1(1, gn) < i)), 1, 0); } \
VC bool N##__invLeft(A, u64 i) { return mark(m, gn) == (int64_t)vc_sel(in_neg(m, gn) & !listed(e, gn) & (vc_fn1(2, gn) >= i), 1, 0); } \
VC bool N##__invNoMark(A) { return mark(m, gn) == 0; } \
VC bool N##__invNone(A) { return gs()->created == 0; } \
VC bool N##__invGiven(A, u64 i) { return gs()->created == (u64)vc_sel(!in_neg(m, gn) & listed(e, gn) & !user_boundary(gn) & (vc_fn1(1, gn) < i), 1, 0); } \
VC bool N##__invLate(A, u64 i) { \
    return gs()->created == (u64)vc_sel((!in_neg(m, gn) & listed(e, gn) & !user_boundary(gn)) | (in_neg(m, gn) & !listed(e, gn) & (vc_fn1(2, gn) < i)), 1, 0); \
} \
VC bool N##__invAll(A) { return gs()->created == gs()->want; } \
VC bool N##__invRange(A, u64 i) { return (gd >= i) | (e->d[gd] < nn(m)); } \
VC bool N##__invIn(A) { return e->d[gd] < nn(m); } \
VC bool N##__invSound(A) { return (gs()->bad == 0) & (gs()->resets == 0) & (gs()->pending == 0); } \
VC bool N##__invFirst(A) { return gs()->runs == 0; } \
VC bool N##__invTime(A) { return m->flooder.queue.cur_time == 0; }
static inline void events(A, bool no_negative) {
    Ghost17 *g = gs();
    vc_assume((m != nullptr) & (e != nullptr) & (gn < nn(m)) & (gd < e->d.size()));
    vc_assume(!no_negative | (neg(m).size() == 0));
    vc_assume_all("Once");
    vc_assume_all("NegOnce");
    vc_assume_all("Valid");
    g->word = 1; g->created = 0; g->runs = 0; g->pending = 0; g->bad = 0; g->resets = 0; g->m = U(m); g->node = U(&m->flooder.graph.nodes[gn]);
    vc_assume(mark(m, gn) == 0);                                  // nothing of an earlier decode is left (C13)
    vc_assume(!(in_neg(m, gn) & user_boundary(gn)));              // edges to boundary nodes are boundary edges (C16)
    g->want = (u64)vc_sel(in_neg(m, gn) != (listed(e, gn) & !user_boundary(gn)), 1, 0);
    bool busy = m->flooder.queue._num_enqueued != 0, left = m->node_arena.allocated.size() != m->node_arena.available.size();
    vc_snapshot();
    try {
        process_timeline_until_completion(*m, e->d);
    } catch (...) {
        vc_check(busy | !valid | left, "only a busy queue, a detection event outside the graph or an incomplete matching is rejected");
        vc_check(busy | (g->resets != 0), "the decoder is reset before an error is reported");
        vc_cover("rejected");
        return;
    }
    vc_check(!busy & !left, "an incomplete matching is rejected");
    vc_check(e->d[gd] < nn(m), "a detection event outside the graph is rejected");
    vc_check(g->created == g->want, "an event is decoded iff it was given or comes from negative edges, but not both; boundary nodes have none");
    vc_check(mark(m, gn) == 0, "no mark is left on a node");
    vc_check((g->runs == 1) & (g->pending == 0) & (g->bad == 0), "every notification is handled, after all events are there");
    vc_check(m->flooder.queue.cur_time == 0, "time starts at zero");
    vc_cover("reach");
}
#undef A
struct Part { u64 obs, weight; };
// ---------------------------------------------------------------- taking the matching out for a list of events
struct GhostT { u64 m, node, obs, weight, bad, calls; };
static inline GhostT *gk() { return (GhostT *)vc_ghost(); }
static inline void release(Mwpm *m, GraphFillRegion *r) {
    GhostT *g = gk();
    DetectorNode *n = (DetectorNode *)g->node;
    g->bad = g->bad | (u64)vc_sel(U(m) != g->m, 1, 0);
    bool mine = (n->region_that_arrived != nullptr) & (U(n->region_that_arrived_top) == U(r));
    n->region_that_arrived = (GraphFillRegion *)(u64)vc_sel(mine, 0, U(n->region_that_arrived));
    n->region_that_arrived_top = (GraphFillRegion *)(u64)vc_sel(mine, 0, U(n->region_that_arrived_top));
    g->calls = g->calls + (u64)vc_sel(mine, 1, 0);
}
VC Part contract_take_region(Mwpm *m, GraphFillRegion *r) {
    release(m, r);
    Part p;
    p.obs = vc_any_u64();
    p.weight = vc_any_u64();
    gk()->obs = gk()->obs ^ p.obs;
    gk()->weight = gk()->weight + p.weight;
    return p;
}
VC void contract_take_region_edges(Mwpm *m, GraphFillRegion *r, std::vector<CompressedEdge> *edges) {
    release(m, r);
    gk()->bad = gk()->bad | (u64)vc_sel(U(edges) != U(&((Mwpm *)gk()->m)->flooder.match_edges), 1, 0);
}
#define A Mwpm *m, const Events *e, u64 gd
static inline DetectorNode *at(Mwpm *m, const Events *e, u64 i) { return &m->flooder.graph.nodes[e->d[i]]; }
#define TAKE(N) \
VC bool N##__fmlIn(A, u64 i) { return (i >= e->d.size()) | (e->d[i] < nn(m)); } \
VC bool N##__invObs(A, u64 x) { return x == gk()->obs; } \
VC bool N##__invWeight(A, u64 x) { return x == gk()->weight; } \
VC bool N##__invGone(A, u64 i) { return (gd >= i) | (at(m, e, gd)->region_that_arrived == nullptr); } \
VC bool N##__invTop(A) { return (at(m, e, gd)->region_that_arrived == nullptr) | (at(m, e, gd)->region_that_arrived_top != nullptr); } \
VC bool N##__invSame(A) { u64 a = U(at(m, e, gd)->region_that_arrived); vc_old(true); u64 b = U(at(m, e, gd)->region_that_arrived); vc_old(false); return (gk()->calls != 0) | (a == b); } \
VC bool N##__invSound(A) { return gk()->bad == 0; } \
VC bool N##__invOnce(A) { vc_old(true); bool had = at(m, e, gd)->region_that_arrived != nullptr; vc_old(false); return gk()->calls == (u64)vc_sel(had & (at(m, e, gd)->region_that_arrived == nullptr), 1, 0); }
static inline void first(Mwpm *m, const Events *e, u64 gd) {
    vc_assume((m != nullptr) & (e != nullptr) & (gd < e->d.size()));
    vc_assume_all("In");
    GhostT *g = gk();
    g->m = U(m); g->obs = 0; g->weight = 0; g->bad = 0; g->calls = 0; g->node = U(at(m, e, gd));
}
static inline void last(Mwpm *m, const Events *e, u64 gd, bool had) {
    vc_check(at(m, e, gd)->region_that_arrived == nullptr, "no listed node is left with a region");
    vc_check(gk()->calls == (u64)vc_sel(had, 1, 0), "its region was taken out once, if there was one");
    vc_cover("reach");
}
static inline void take(A) {
    first(m, e, gd);
    bool had = at(m, e, gd)->region_that_arrived != nullptr;
    vc_assume(!had | (at(m, e, gd)->region_that_arrived_top != nullptr));
    vc_snapshot();
    MatchingResult r = shatter_blossoms_for_all_detection_events_and_extract_obs_mask_and_weight(*m, e->d);
    vc_check((r.obs_mask == gk()->obs) & ((u64)r.weight == gk()->weight), "the result combines all regions taken out");
    last(m, e, gd, had);
}
static inline void take_edges(A) {
    first(m, e, gd);
    bool had = at(m, e, gd)->region_that_arrived != nullptr;
    vc_assume(!had | (at(m, e, gd)->region_that_arrived_top != nullptr));
    vc_snapshot();
    shatter_blossoms_for_all_detection_events_and_extract_match_edges(*m, e->d);
    vc_check(gk()->bad == 0, "all pairs go to the decoder's list");
    last(m, e, gd, had);
}
#undef A
