// C10: what the two graphs store when an edge is added.
// Specification variables: gn an arbitrary node, gs an arbitrary slot of it, gi an arbitrary observable.
// vc_fn1(1, j): parity of the number of times observable gi is among the first j observables of the edge added
#include <iostream>
#include <stdexcept>
#include "pymatching/sparse_blossom/flooder/graph.h"
#include "pymatching/sparse_blossom/search/search_graph.h"
#include "vc.h"
using namespace pm;
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
struct Ghost10 { u64 obs_calls, node_calls, first, second, slots; };
static inline Ghost10 *gs_() { return (Ghost10 *)vc_ghost(); }
struct Edge { std::vector<size_t> obs; };
typedef std::vector<ImpliedWeightUnconverted> Implied;
VC void contract_neg_obs(MatchingGraph *g, const void *o) { gs_()->obs_calls = gs_()->obs_calls + 1; }
VC void contract_neg_node(MatchingGraph *g, size_t n) {
    Ghost10 *s = gs_();
    s->first = (u64)vc_sel(s->node_calls == 0, n, s->first);
    s->second = (u64)vc_sel(s->node_calls == 1, n, s->second);
    s->node_calls = s->node_calls + 1;
}
// bookkeeping of correlated weights (C11, C16) is represented by contracts
VC void *contract_rules_of(void *map, const u64 *key) { return vc_ghost(); }
VC void *contract_rules_add(void *v, const void *x) { return vc_ghost(); }
VC void *contract_rules_insert(void *v, void *pos, u64 n, const void *x) { return vc_ghost(); }
static inline u64 par(u64 j) { return vc_fn1(1, j) & 1; }
static inline u64 bit(u64 m, u64 i) { return (m >> (i & 63)) & 1; }
static inline u64 mag(int64_t w) { return (u64)vc_sel(w < 0, -w, w); }

#define A MatchingGraph *g, u64 u, u64 v, int32_t w, const Edge *e, const Implied *imp, u64 gn, u64 gs, u64 gi
#define PRED(N) \
VC bool N##__fmlNone(A) { return par(0) == 0; } \
VC bool N##__fmlStep(A, u64 j) { return (j >= e->obs.size()) | (par(j + 1) == (par(j) ^ (u64)vc_sel(e->obs[j] == gi, 1, 0))); } \
VC bool N##__fmlRange(A, u64 j) { return (j >= e->obs.size()) | (e->obs[j] < g->num_observables); } \
VC bool N##__invMask(A, u64 m, u64 j) { return bit(m, gi) == par(j); }
PRED(c10_edge)
PRED(c10_bedge)
static inline u64 deg(const DetectorNode &n) { return n.neighbors.size(); }
static inline bool level(const DetectorNode &n) { return (n.neighbor_weights.size() == deg(n)) & (n.neighbor_observables.size() == deg(n)); }
static inline bool sized(const DetectorNode &n) { return level(n) & (deg(n) < (1ull << 38)); }
static inline bool same_slot(const DetectorNode &n, u64 i, u64 i0) {
    u64 a = U(n.neighbors[i]), b = n.neighbor_weights[i], c = n.neighbor_observables[i];
    vc_old(true);
    bool r = (a == U(n.neighbors[i0])) & (b == n.neighbor_weights[i0]) & (c == n.neighbor_observables[i0]);
    vc_old(false);
    return r;
}
static inline bool mask_ok(u64 m, u64 nobs, u64 gi, u64 n) { return (u64)vc_sel(nobs <= 64, bit(m, gi), m) == (u64)vc_sel(nobs <= 64, par(n), 0); }
VC void c10_edge(A) {
    Ghost10 *s = gs_();
    s->obs_calls = 0; s->node_calls = 0;
    vc_assume((g != nullptr) & (e != nullptr) & (imp != nullptr) & (w > INT32_MIN) & (gi < 64));
    vc_assume_all("Step");
    vc_assume_all("Range");
    vc_assume(par(0) == 0);
    u64 size = g->nodes.size();
    bool in = (u < size) & (v < size);
    vc_assume((gn < size) & (u != SIZE_MAX) & (v != SIZE_MAX));
    const DetectorNode &n = g->nodes[gn];
    vc_assume(sized(n) & (gs < deg(n)));
    if (in) vc_assume(sized(g->nodes[u]) & sized(g->nodes[v]));
    u64 d0 = deg(n), du = in ? deg(g->nodes[u]) : 0, dv = in ? deg(g->nodes[v]) : 0;
    int64_t sum = g->negative_weight_sum;
    bool neg = w < 0;
    vc_snapshot();
    try {
        g->add_edge(u, v, w, e->obs, *imp);
    } catch (...) {
        vc_check(!in, "only endpoints outside the graph are rejected");
        vc_check((deg(n) == d0) & level(n) & same_slot(n, gs, gs), "a rejected edge changes no stored edge");
        vc_check((g->negative_weight_sum == sum) & (s->obs_calls == 0) & (s->node_calls == 0), "nor the record of negative weights");
        vc_cover("rejected");
        return;
    }
    vc_check(in, "endpoints outside the graph are rejected");
    vc_check(same_slot(n, gs, gs), "no other stored edge changes");
    vc_check((g->nodes.size() == size) & level(n) & (deg(n) == d0 + (u64)vc_sel((u != v) & ((gn == u) | (gn == v)), 1, 0)), "both ends gain one edge, other nodes none; self-loops are not stored");
    if (u != v) {
        const DetectorNode &a = g->nodes[u], &b = g->nodes[v];
        vc_check((U(a.neighbors[du]) == U(&b)) & (U(b.neighbors[dv]) == U(&a)), "the edge is stored at both ends");
        vc_check((a.neighbor_weights[du] == mag(w)) & (b.neighbor_weights[dv] == mag(w)), "with its absolute weight");
        vc_check(mask_ok(a.neighbor_observables[du], g->num_observables, gi, e->obs.size()) & mask_ok(b.neighbor_observables[dv], g->num_observables, gi, e->obs.size()), "and the parity of each observable");
        vc_cover("stored");
    }
    vc_check((g->negative_weight_sum == sum + (int64_t)vc_sel(neg, w, 0)) & (s->obs_calls == (u64)vc_sel(neg, 1, 0)), "a negative weight is added to the total and its observables recorded");
    vc_check((s->node_calls == (u64)vc_sel(neg, 2, 0)) & (!neg | ((s->first == u) & (s->second == v)) | ((s->first == v) & (s->second == u))), "and both its endpoints");
    vc_cover("reach");
}
VC void c10_bedge(A) {
    Ghost10 *s = gs_();
    s->obs_calls = 0; s->node_calls = 0;
    vc_assume((g != nullptr) & (e != nullptr) & (imp != nullptr) & (w > INT32_MIN) & (gi < 64));
    vc_assume_all("Step");
    vc_assume_all("Range");
    vc_assume(par(0) == 0);
    u64 size = g->nodes.size();
    bool in = u < size;
    vc_assume(gn < size);
    const DetectorNode &n = g->nodes[gn];
    vc_assume(sized(n) & (gs < deg(n)));
    if (in) vc_assume(sized(g->nodes[u]));
    bool has = in && deg(g->nodes[u]) != 0 && g->nodes[u].neighbors[0] == nullptr;
    u64 d0 = deg(n);
    int64_t sum = g->negative_weight_sum;
    bool neg = w < 0;
    vc_snapshot();
    try {
        g->add_boundary_edge(u, w, e->obs, *imp);
    } catch (...) {
        vc_check(!in | has, "only unknown nodes and second boundary edges are rejected");
        vc_check((deg(n) == d0) & level(n) & same_slot(n, gs, gs), "a rejected edge changes no stored edge");
        vc_check((g->negative_weight_sum == sum) & (s->obs_calls == 0) & (s->node_calls == 0), "nor the record of negative weights");
        vc_cover("rejected");
        return;
    }
    vc_check(in & !has, "unknown nodes and second boundary edges are rejected");
    bool here = gn == u;
    vc_check(same_slot(n, gs + (u64)vc_sel(here, 1, 0), gs), "no other stored edge changes");
    vc_check((g->nodes.size() == size) & level(n) & (deg(n) == d0 + (u64)vc_sel(here, 1, 0)), "the node gains one edge, other nodes none");
    const DetectorNode &a = g->nodes[u];
    vc_check(a.neighbors[0] == nullptr, "the boundary is the first neighbour");
    vc_check((a.neighbor_weights[0] == mag(w)) & mask_ok(a.neighbor_observables[0], g->num_observables, gi, e->obs.size()), "with the absolute weight and the parity of each observable");
    vc_check((g->negative_weight_sum == sum + (int64_t)vc_sel(neg, w, 0)) & (s->obs_calls == (u64)vc_sel(neg, 1, 0)), "a negative weight is added to the total and its observables recorded");
    vc_check((s->node_calls == (u64)vc_sel(neg, 1, 0)) & (!neg | (s->first == u)), "and its endpoint");
    vc_cover("reach");
}
#undef A
// ---------------------------------------------------------------- the search graph
#define A SearchGraph *g, u64 u, u64 v, int32_t w, const Edge *e, const Implied *imp, u64 gn, u64 gs, u64 gi
typedef SearchDetectorNode Snode;
static inline u64 sdeg(const Snode &n) { return n.neighbors.size(); }
static inline bool slevel(const Snode &n) { return (n.neighbor_weights.size() == sdeg(n)) & (n.neighbor_observable_indices.size() == sdeg(n)) & (n.neighbor_markers.size() == sdeg(n)); }
static inline bool ssized(const Snode &n) { return slevel(n) & (sdeg(n) < (1ull << 38)); }
static inline bool ssame(const Snode &n, u64 i, u64 i0) {
    u64 a = U(n.neighbors[i]), b = n.neighbor_weights[i], c = n.neighbor_markers[i];
    vc_old(true);
    bool r = (a == U(n.neighbors[i0])) & (b == n.neighbor_weights[i0]) & (c == n.neighbor_markers[i0]);
    vc_old(false);
    return r;
}
static inline bool sobs_same(const Snode &n, u64 i, u64 k) {
    u64 a = n.neighbor_observable_indices[i].size(), b = n.neighbor_observable_indices[i][k];
    vc_old(true);
    bool r = (a == n.neighbor_observable_indices[i].size()) & (b == n.neighbor_observable_indices[i][k]);
    vc_old(false);
    return r;
}
static inline bool holds_obs(const Snode &n, u64 i, const Edge *e, u64 k) {
    return (n.neighbor_observable_indices[i].size() == e->obs.size()) & ((k >= e->obs.size()) | (n.neighbor_observable_indices[i][k] == e->obs[k]));
}
VC void c10_sedge(A) {
    vc_assume((g != nullptr) & (e != nullptr) & (imp != nullptr) & (w > INT32_MIN));
    u64 size = g->nodes.size(), m = g->negative_weight_edges.size();
    bool in = (u < size) & (v < size);
    vc_assume((gn < size) & (u != SIZE_MAX) & (v != SIZE_MAX) & (m < (1ull << 38)));
    const Snode &n = g->nodes[gn];
    vc_assume(ssized(n) & (gs < sdeg(n)));
    if (in) vc_assume(ssized(g->nodes[u]) & ssized(g->nodes[v]));
    u64 d0 = sdeg(n), du = in ? sdeg(g->nodes[u]) : 0, dv = in ? sdeg(g->nodes[v]) : 0;
    bool neg = w < 0;
    vc_snapshot();
    try {
        g->add_edge(u, v, w, e->obs, *imp);
    } catch (...) {
        vc_check(!in, "only endpoints outside the graph are rejected");
        vc_check((sdeg(n) == d0) & slevel(n) & ssame(n, gs, gs) & sobs_same(n, gs, gi) & (g->negative_weight_edges.size() == m), "a rejected edge changes nothing");
        vc_cover("rejected");
        return;
    }
    vc_check(in, "endpoints outside the graph are rejected");
    vc_check(ssame(n, gs, gs), "no other stored edge changes");
    vc_check(sobs_same(n, gs, gi), "nor its observables");
    vc_check((g->nodes.size() == size) & slevel(n) & (sdeg(n) == d0 + (u64)vc_sel((u != v) & ((gn == u) | (gn == v)), 1, 0)), "both ends gain one edge, other nodes none; self-loops are not stored");
    if (u != v) {
        const Snode &a = g->nodes[u], &b = g->nodes[v];
        vc_check((U(a.neighbors[du]) == U(&b)) & (U(b.neighbors[dv]) == U(&a)), "the edge is stored at both ends");
        vc_check((a.neighbor_weights[du] == mag(w)) & (b.neighbor_weights[dv] == mag(w)), "with its absolute weight");
        vc_check(holds_obs(a, du, e, gi) & holds_obs(b, dv, e, gi), "and its observables");
        vc_check(((a.neighbor_markers[du] == WEIGHT_SIGN) == neg) & ((b.neighbor_markers[dv] == WEIGHT_SIGN) == neg) & (neg | ((a.neighbor_markers[du] == 0) & (b.neighbor_markers[dv] == 0))), "and the sign of its weight");
        vc_check(g->negative_weight_edges.size() == m + (u64)vc_sel(neg, 1, 0), "an edge of negative weight is recorded");
        vc_check(!neg || ((g->negative_weight_edges[m].first == u) & (g->negative_weight_edges[m].second == v)), "with its two ends");
        vc_cover("stored");
    }
    vc_cover("reach");
}
VC void *contract_obs_insert(void *vec, void *pos, u64 n, const void *x) {
    Ghost10 *s = gs_();
    s->obs_calls = s->obs_calls + 1;
    s->first = U(vec);
    s->second = U(x);
    s->slots = n;
    s->node_calls = (u64)vc_sel(U(pos) == U(&*((std::vector<std::vector<size_t>> *)vec)->begin()), 1, 0);
    return vc_ghost();
}
VC void c10_sbedge(A) {
    Ghost10 *s = gs_();
    s->obs_calls = 0;
    vc_assume((g != nullptr) & (e != nullptr) & (imp != nullptr) & (w > INT32_MIN));
    u64 size = g->nodes.size(), m = g->negative_weight_edges.size();
    bool in = u < size;
    vc_assume((gn < size) & (m < (1ull << 38)));
    const Snode &n = g->nodes[gn];
    vc_assume(ssized(n) & (gs < sdeg(n)));
    if (in) vc_assume(ssized(g->nodes[u]));
    u64 d0 = sdeg(n);
    bool neg = w < 0;
    vc_snapshot();
    try {
        g->add_boundary_edge(u, w, e->obs, *imp);
    } catch (...) {
        vc_check(!in, "only unknown nodes are rejected");
        vc_check((sdeg(n) == d0) & slevel(n) & ssame(n, gs, gs) & (g->negative_weight_edges.size() == m) & (s->obs_calls == 0), "a rejected edge changes nothing");
        vc_cover("rejected");
        return;
    }
    vc_check(in, "unknown nodes are rejected");
    bool here = gn == u;
    vc_check(ssame(n, gs + (u64)vc_sel(here, 1, 0), gs), "no other stored edge changes");
    vc_check((g->nodes.size() == size) & (sdeg(n) == d0 + (u64)vc_sel(here, 1, 0)) & (n.neighbor_weights.size() == sdeg(n)) & (n.neighbor_markers.size() == sdeg(n)), "the node gains one edge, other nodes none");
    const Snode &a = g->nodes[u];
    vc_check((a.neighbors[0] == nullptr) & (a.neighbor_weights[0] == mag(w)), "the boundary is the first neighbour, with the absolute weight");
    vc_check(((a.neighbor_markers[0] == WEIGHT_SIGN) == neg) & (neg | (a.neighbor_markers[0] == 0)), "and the sign of the weight");
    vc_check((s->obs_calls == 1) & (s->first == U(&a.neighbor_observable_indices)) & (s->node_calls == 1) & (s->second == U(&e->obs)) & (s->slots == 1), "and its observables");
    vc_check((g->negative_weight_edges.size() == m + (u64)vc_sel(neg, 1, 0)) && (!neg || ((g->negative_weight_edges[m].first == u) & (g->negative_weight_edges[m].second == SIZE_MAX))), "an edge of negative weight is recorded");
    vc_cover("reach");
}
#undef A
// ---------------------------------------------------------------- sets of negative-weight nodes and observables
// std::set is represented by contracts that follow the membership of one arbitrary value x.
struct GhostSet { u64 obs_calls, node_calls, first, second, slots, x, in, end, at, set, bad; };
static inline GhostSet *gt() { return (GhostSet *)vc_ghost(); }
struct Inserted { void *it; bool fresh; };
static inline void uses(const void *set) { gt()->bad = gt()->bad | (u64)vc_sel(U(set) != gt()->set, 1, 0); }
VC void *contract_set_end(const void *set) { uses(set); return (void *)gt()->end; }
VC void *contract_set_find(const void *set, const u64 *v) {
    GhostSet *g = gt();
    uses(set);
    u64 other = vc_any_u64();
    vc_assume(other != g->at);
    return (void *)(u64)vc_sel(*v == g->x, vc_sel(g->in != 0, g->at, g->end), other);
}
VC u64 contract_set_count(const void *set, const u64 *v) {
    GhostSet *g = gt();
    uses(set);
    u64 other = vc_any_u64();
    vc_assume(other <= 1);
    return (u64)vc_sel(*v == g->x, g->in, other);
}
VC Inserted contract_set_insert(void *set, const u64 *v) {
    GhostSet *g = gt();
    uses(set);
    u64 other = vc_any_u64();
    vc_assume(other != g->at);
    bool is = *v == g->x, was = g->in != 0, any = vc_any_bool();
    g->in = (u64)vc_sel(is, 1, g->in);
    Inserted r;
    r.it = (void *)(u64)vc_sel(is, g->at, other);
    r.fresh = is ? !was : any;
    return r;
}
VC void *contract_set_erase(void *set, void *it) {
    GhostSet *g = gt();
    uses(set);
    g->bad = g->bad | (u64)vc_sel(U(it) == g->end, 1, 0);
    g->in = (u64)vc_sel(U(it) == g->at, 0, g->in);
    u64 next = vc_any_u64();
    vc_assume(next != g->at);
    return (void *)next;
}
VC u64 contract_set_erase_key(void *set, const u64 *v) {
    GhostSet *g = gt();
    uses(set);
    u64 other = vc_any_u64(), was = g->in;
    vc_assume(other <= 1);
    bool is = *v == g->x;
    g->in = (u64)vc_sel(is, 0, g->in);
    return (u64)vc_sel(is, was, other);
}
#define A MatchingGraph *g, u64 node
VC void c10_set_node(A) {
    GhostSet *s = gt();
    s->set = U(&g->negative_weight_detection_events_set);
    s->bad = 0;
    vc_assume((g != nullptr) & (s->in <= 1) & (s->at != s->end));
    u64 in = s->in;
    vc_snapshot();
    g->update_negative_weight_detection_events(node);
    vc_check(s->in == (in ^ (u64)vc_sel(node == s->x, 1, 0)), "the node changes sides, every other value stays");
    vc_check(s->bad == 0, "only the set of detection events is used, and nothing outside it is erased");
    vc_cover("reach");
}
#undef A
#define A MatchingGraph *g, const Edge *e, u64 in
// vc_fn1(1, j): parity of the number of times x is among the first j observables
VC bool c10_set_obs__fmlStep(A, u64 j) { return (j >= e->obs.size()) | (par(j + 1) == (par(j) ^ (u64)vc_sel(e->obs[j] == gt()->x, 1, 0))); }
VC bool c10_set_obs__invIn(A, u64 j) { return gt()->in == (in ^ par(j)); }
VC bool c10_set_obs__invOk(A) { return (gt()->bad == 0) & (gt()->in <= 1); }
VC void c10_set_obs(A) {
    GhostSet *s = gt();
    s->set = U(&g->negative_weight_observables_set);
    s->bad = 0; s->in = in;
    vc_assume((g != nullptr) & (e != nullptr) & (s->in <= 1) & (s->at != s->end));
    vc_assume_all("Step");
    vc_assume(par(0) == 0);
    vc_snapshot();
    g->update_negative_weight_observables(e->obs);
    vc_check(s->in == (in ^ par(e->obs.size())), "an observable changes sides once for each time it is listed");
    vc_check(s->bad == 0, "only the set of observables is used, and nothing outside it is erased");
    vc_cover("reach");
}
#undef A
