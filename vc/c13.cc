// C13: nothing of a decode is left behind.
#include "flood.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
typedef DetectorNode Node;
static inline bool clean_tracker(const QueuedEventTracker &t) { return !t.has_desired_time & !t.has_queued_time; }
static inline bool clean(const Node *n) {
    return (n->observables_crossed_from_source == 0) & (n->reached_from_source == nullptr) & (n->radius_of_arrival == 0) & (n->region_that_arrived == nullptr) &
           (n->region_that_arrived_top == nullptr) & (n->wrapped_radius_cached == 0) & clean_tracker(n->node_event_tracker);
}
VC void c13_node(Node *n) {
    vc_assume(n != nullptr);
    u64 deg = n->neighbors.size(), wts = n->neighbor_weights.size(), ob = n->neighbor_observables.size();
    vc_snapshot();
    n->reset();
    vc_check(clean(n), "a reset node is unowned, unreached and wants no wake-up");
    vc_check((n->neighbors.size() == deg) & (n->neighbor_weights.size() == wts) & (n->neighbor_observables.size() == ob), "its edges stay");
    vc_writes(&n->observables_crossed_from_source, 8);
    vc_writes(&n->reached_from_source, 8);
    vc_writes(&n->radius_of_arrival, 8);
    vc_writes(&n->region_that_arrived, 8);
    vc_writes(&n->region_that_arrived_top, 8);
    vc_writes(&n->wrapped_radius_cached, sizeof(n->wrapped_radius_cached));
    vc_writes(&n->node_event_tracker, sizeof(n->node_event_tracker));
    vc_frame("node reset");
    vc_cover("reach");
}
#define A GraphFillRegion *r, u64 gi, Node *other
VC bool c13_shell__fmlNodes(A, u64 i) { return (i >= r->shell_area.size()) | (r->shell_area[i] != nullptr); }
VC bool c13_shell__invDone(A, u64 i) { return (gi >= i) | clean(r->shell_area[gi]); }
VC void c13_shell(A) {
    vc_assume((r != nullptr) & (gi < r->shell_area.size()));
    vc_assume_all("Nodes");
    vc_snapshot();
    r->cleanup_shell_area();
    vc_check(clean(r->shell_area[gi]), "every node of a cleaned-up region is unowned, unreached and wants no wake-up");
    vc_cover("reach");
}
VC bool c13_shell_other__fmlNotIn(A, u64 i) { return (i >= r->shell_area.size()) | ((U(r->shell_area[i]) != U(other)) & (r->shell_area[i] != nullptr)); }
static inline bool as_before(const Node *n) {
    u64 a = n->observables_crossed_from_source, b = U(n->reached_from_source), c = U(n->region_that_arrived), d = U(n->region_that_arrived_top);
    int64_t e = n->radius_of_arrival, f = n->wrapped_radius_cached;
    bool h = n->node_event_tracker.has_desired_time, q = n->node_event_tracker.has_queued_time;
    vc_old(true);
    bool r = (a == n->observables_crossed_from_source) & (b == U(n->reached_from_source)) & (c == U(n->region_that_arrived)) & (d == U(n->region_that_arrived_top)) &
             (e == n->radius_of_arrival) & (f == n->wrapped_radius_cached) & (h == n->node_event_tracker.has_desired_time) & (q == n->node_event_tracker.has_queued_time);
    vc_old(false);
    return r;
}
VC bool c13_shell_other__invSame(A) { return as_before(other); }
VC void c13_shell_other(A) {
    vc_assume((r != nullptr) & (other != nullptr));
    vc_assume_all("NotIn");
    vc_snapshot();
    r->cleanup_shell_area();
    vc_check(as_before(other), "no other node changes");
    vc_cover("reach");
}
#undef A
// ---------------------------------------------------------------- full reset (also in the middle of a decode)
VC void contract_queue_clear(Queue *q) {
    G()->calls = G()->calls + 1;
    G()->node = U(q);
}
VC void contract_tree_pool(void *a) {
    G()->k = G()->k + 1;
    G()->node2 = U(a);
}
VC void contract_region_pool(void *a) {
    G()->pending = G()->pending + 1;
    G()->region = U(a);
}
#define A Mwpm *m, u64 gi, u64 gj
static inline bool clean_search(const SearchDetectorNode *n) {
    return (n->reached_from_source == nullptr) & (n->index_of_predecessor == SIZE_MAX) & clean_tracker(n->node_event_tracker);
}
VC bool c13_reset__invNodes(A, u64 i) { return (gi >= i) | clean(&m->flooder.graph.nodes[gi]); }
VC bool c13_reset__invNodesAll(A) { return clean(&m->flooder.graph.nodes[gi]); }
VC bool c13_reset__invSearch(A, u64 i) { return (gj >= i) | clean_search(&m->search_flooder.graph.nodes[gj]); }
VC void c13_reset(A) {
    Ghost *g = G();
    g->calls = 0; g->k = 0; g->pending = 0;
    vc_assume((m != nullptr) & (gi < m->flooder.graph.nodes.size()) & (gj < m->search_flooder.graph.nodes.size()));
    vc_snapshot();
    m->reset();
    vc_check(clean(&m->flooder.graph.nodes[gi]), "every node is unowned, unreached and wants no wake-up");
    vc_check(clean_search(&m->search_flooder.graph.nodes[gj]), "every search node is unreached and wants no wake-up");
    vc_check((g->calls != 0) & (g->node == U(&m->flooder.queue)), "the queue is cleared");
    vc_check((g->k != 0) & (g->node2 == U(&m->node_arena)) & (g->pending != 0) & (g->region == U(&m->flooder.region_arena)), "every region and every tree node is given back");
    vc_cover("reach");
}
#undef A
