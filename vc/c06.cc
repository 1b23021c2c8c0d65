// C06: the next interaction at a node is the earliest possible one, and exactly that is scheduled.
#include "flood.h"

static inline const DetectorNode *nb(const DetectorNode *n, uint64_t i) { return n->neighbors[i]; }
static inline bool bnd(const DetectorNode *n, uint64_t i) { return nb(n, i) == nullptr; }
// edge i of n is going to collide
static inline bool collides(const DetectorNode *n, uint64_t i) {
    bool a = bnd(n, i) | ((nb(n, i)->region_that_arrived_top != n->region_that_arrived_top) & !n_shrinks(nb(n, i)));
    bool b = !bnd(n, i) & n_grows(nb(n, i));
    return (n_grows(n) & a) | (!n_grows(n) & b);
}
static inline int64_t gap(const DetectorNode *n, uint64_t i) {
    return (int64_t)n->neighbor_weights[i] - n_base(n) - vc_sel(bnd(n, i), 0, n_base(nb(n, i)));
}
static inline bool both(const DetectorNode *n, uint64_t i) { return n_grows(n) & !bnd(n, i) & n_grows(nb(n, i)); }
// time t is when the two radii together first cover edge i (in whole time units, rounded down)
static inline bool is_time(const DetectorNode *n, uint64_t i, int64_t t) {
    int64_t g = gap(n, i);
    return t == vc_sel(both(n, i), g >> 1, g);
}
static inline bool not_before(const DetectorNode *n, uint64_t i, int64_t t) {   // t is no later than the collision time of edge i
    int64_t g = gap(n, i);
    return t <= vc_sel(both(n, i), g >> 1, g);
}
#define NODES(h)                                                                                                     \
    VC bool h##__fmlNodes(const GraphFlooder *, DetectorNode *n, uint64_t, uint64_t i) {                             \
        return (i >= n->neighbors.size()) | ((bnd(n, i) & (i == 0)) | (!bnd(n, i) & n_ok(nb(n, i))));                        \
    }
// loop invariants: (k, t) the best so far, i the position
#define BEST(h)                                                                                                      \
    VC bool h##__invSeen(const GraphFlooder *, DetectorNode *n, uint64_t gi, uint64_t k, uint64_t t, uint64_t i) {   \
        return (gi >= i) | ((k != SIZE_MAX) & not_before(n, gi, (int64_t)t)) | !collides(n, gi);                      \
    }                                                                                                                \
    VC bool h##__invBest(const GraphFlooder *, DetectorNode *n, uint64_t gi, uint64_t k, uint64_t t, uint64_t i) {   \
        return ((k == SIZE_MAX) & ((int64_t)t == INT64_MAX)) |                                                       \
               ((k != SIZE_MAX) & (k < i) & (k < n->neighbors.size()) & collides(n, k) & is_time(n, k, (int64_t)t));  \
    }                                                                                                                \
    VC bool h##__invStart(const GraphFlooder *, DetectorNode *n, uint64_t gi, uint64_t i) {                          \
        return (i >= 1) | (n->neighbors.size() == 0) | !bnd(n, 0);                                                 \
    }
static inline void pre(const DetectorNode *n, uint64_t gi) {
    vc_assume(n->neighbors.size() == n->neighbor_weights.size());
    vc_assume(n_ok(n));
    vc_assume(gi < n->neighbors.size());
}
NODES(c06_next_growing)
BEST(c06_next_growing)
VC void c06_next_growing(const GraphFlooder *f, DetectorNode *n, uint64_t gi) {
    pre(n, gi);
    vc_assume_all("Nodes");
    vc_assume(n_grows(n));
    vc_snapshot();
    auto r = f->find_next_event_at_node_returning_neighbor_index_and_time(*n);
    vc_check(!collides(n, gi) | ((r.first != SIZE_MAX) & not_before(n, gi, r.second)), "no edge that will collide is skipped or collides earlier");
    vc_check((r.first == SIZE_MAX) | ((r.first < n->neighbors.size()) & collides(n, r.first)), "only an edge that will collide is chosen");
    vc_check((r.first == SIZE_MAX) | is_time(n, r.first, r.second), "the time is the collision time of the chosen edge");
    vc_check((r.first != SIZE_MAX) | (r.second == INT64_MAX), "no interaction means no time");
    vc_frame("find_next_event");
    vc_cover("reach");
}
NODES(c06_next_other)
BEST(c06_next_other)
VC void c06_next_other(const GraphFlooder *f, DetectorNode *n, uint64_t gi) {
    pre(n, gi);
    vc_assume_all("Nodes");
    vc_assume(!n_grows(n));
    vc_snapshot();
    auto r = f->find_next_event_at_node_returning_neighbor_index_and_time(*n);
    vc_check(!collides(n, gi) | ((r.first != SIZE_MAX) & not_before(n, gi, r.second)), "no edge that will collide is skipped or collides earlier");
    vc_check((r.first == SIZE_MAX) | ((r.first < n->neighbors.size()) & collides(n, r.first)), "only an edge that will collide is chosen");
    vc_check((r.first == SIZE_MAX) | is_time(n, r.first, r.second), "the time is the collision time of the chosen edge");
    vc_check((r.first != SIZE_MAX) | (r.second == INT64_MAX), "no interaction means no time");
    vc_frame("find_next_event");
    vc_cover("reach");
}
// a node without edges has no interaction
VC void c06_next_none(const GraphFlooder *f, DetectorNode *n) {
    vc_assume(n->neighbors.size() == 0 && n->neighbor_weights.size() == 0);
    vc_assume(n_ok(n));
    auto r = f->find_next_event_at_node_returning_neighbor_index_and_time(*n);
    vc_check(r.first == SIZE_MAX && r.second == INT64_MAX, "an isolated node has no interaction");
    vc_cover("reach");
}
// the radius the node contributes
VC void c06_local_radius(DetectorNode *n) {
    vc_assume(n_ok_plain(n));
    vc_check(n_ok(n), "a radius and a wrapped radius in range have a sum in range");
    vc_snapshot();
    auto v = n->local_radius();
    vc_check(base(v.data) == n_base(n), "the local radius agrees with its packed form");
    vc_check(base(v.data) == n_base_plain(n), "the local radius is the top region's radius plus the wrapped radius");
    vc_check(grows(v.data) == n_grows(n) && shrinks(v.data) == n_shrinks(n), "the local radius moves with the top region");
    vc_frame("local_radius");
    vc_cover("reach");
}

// ---- scheduling, against the contracts of the search (above), of enqueue (C02) and of the tracker (C05)
VC void contract_enqueue(Queue *q, FloodCheckEvent ev) {
    G()->n = G()->n + 1;
    G()->data = (uint64_t)(uintptr_t)ev.data_look_at_node;
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
}
VC std::pair<size_t, cumulative_time_int> contract_find_next(const GraphFlooder *f, const DetectorNode *n) {
    G()->calls = G()->calls + 1;
    G()->node = (uint64_t)(uintptr_t)n;
    uint64_t i = G()->idx;
    int64_t t = G()->when;
    return {i, t};
}
VC void c06_reschedule(GraphFlooder *f, DetectorNode *n) {
    G()->n = 0;
    G()->calls = 0;
    vc_assume((G()->idx == SIZE_MAX) == (G()->when == INT64_MAX));
    vc_assume(!n->node_event_tracker.has_queued_time | ((uint32_t)(G()->when - n->node_event_tracker.queued_time.value) != 0x80000000u));
    QueuedEventTracker *k = &n->node_event_tracker;
    bool hq = k->has_queued_time;
    uint32_t qt = k->queued_time.value;
    vc_snapshot();
    vc_writes(&n->node_event_tracker, sizeof(QueuedEventTracker));
    f->reschedule_events_at_detector_node(*n);
    bool none = G()->idx == SIZE_MAX;
    uint32_t t = (uint32_t)G()->when;
    vc_check(G()->node == (uint64_t)(uintptr_t)n, "the next interaction of this node is looked up");
    vc_check(k->has_desired_time == !none, "a wake-up is wanted exactly when there is an interaction");
    vc_check(none || k->desired_time.value == t, "the wanted wake-up has exactly the interaction's time");
    vc_check(G()->n <= 1 && (G()->n == 0 || (!none && G()->data == (uint64_t)(uintptr_t)n && G()->time == t && G()->type == LOOK_AT_NODE)),
             "the queued event is this node at the interaction's time");
    vc_check(none || (k->has_queued_time && (int32_t)(t - k->queued_time.value) >= 0), "an event is outstanding no later than the interaction");
    vc_check(G()->n == 1 ? (k->has_queued_time && k->queued_time.value == t) : (k->has_queued_time == hq && k->queued_time.value == qt), "the tracker knows its outstanding event");
    vc_frame("reschedule_events_at_detector_node");
    vc_cover("reach");
}
