// C12: shortest-path search.  Every function of the search is under contract; the callbacks of the path visitors are
// checked through an arbitrary visited edge.
#include "flood.h"
#include "pymatching/sparse_blossom/search/search_flooder.h"
typedef uint64_t u64;
typedef SearchDetectorNode Node;
#define U(p) ((u64)(uintptr_t)(p))

// ---------------------------------------------------------------- contracts of callees
VC void contract_enqueue(Queue *q, FloodCheckEvent ev) {
    G()->n = G()->n + 1;
    G()->data = U(ev.data_look_at_search_node);
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
}
VC std::pair<size_t, cumulative_time_int> contract_find_next(const SearchFlooder *f, const Node *n) {
    G()->node2 = U(n);
    return {G()->idx, G()->when};
}
VC size_t contract_index_of(const Node *n, Node *t) { return vc_fn2(2, U(n), U(t)); }
VC void contract_reschedule(SearchFlooder *f, Node *n) {
    if (U(n) == G()->node) {
        G()->calls = G()->calls + 1;
        G()->region = U(n->reached_from_source);
        G()->when = n->distance_from_source;
        G()->idx = n->index_of_predecessor;
    }
}
VC void contract_exploring(SearchFlooder *f, Node *n, size_t k) {
    G()->calls = G()->calls + 1;
    G()->node = U(n);
    G()->k = k;
    // the callee's contract: what it changes (c12_explore)
    n->reached_from_source = (Node *)vc_any_u64();
    n->index_of_predecessor = k;
    n->distance_from_source = (int64_t)vc_any_u64();
}

// ---------------------------------------------------------------- the next interaction
static inline const Node *nb(const Node *n, u64 i) { return n->neighbors[i]; }
static inline bool bnd(const Node *n, u64 i) { return nb(n, i) == nullptr; }
static inline bool eligible(const SearchFlooder *f, const Node *n, u64 i) {
    return (bnd(n, i) & (f->target_type == BOUNDARY)) | (!bnd(n, i) & (U(nb(n, i)->reached_from_source) != U(n->reached_from_source)));
}
// the search from n covers edge i alone, or together with the search that has reached the other end
static inline bool both(const Node *n, u64 i) { return !bnd(n, i) & (nb(n, i)->reached_from_source != nullptr); }
static inline int64_t gap(int64_t now, int64_t w, int64_t d1, int64_t d2) { return w - (now - d1) - (now - d2); }
static inline int64_t gapof(const SearchFlooder *f, const Node *n, u64 i) {
    return gap(f->queue.cur_time, n->neighbor_weights[i], n->distance_from_source, nb(n, i)->distance_from_source);
}
// vc_fn1(9, i): when edge i is covered
static inline int64_t when(u64 i) { return (int64_t)vc_fn1(9, i); }
VC bool c12_next__fmlWhen(const SearchFlooder *f, Node *n, u64, u64 i) {
    return (i >= n->neighbors.size()) | (when(i) == vc_sel(both(n, i), f->queue.cur_time + (gapof(f, n, i) >> 1), n->distance_from_source + (int64_t)n->neighbor_weights[i]));
}
// (lemma) that time is half the length of the path through the edge, which has even length
VC void c12_meeting(int64_t now, uint32_t w, int64_t d1, int64_t d2) {
    vc_assume((now >= 0) & (now < (1ll << 56)) & (d1 >= 0) & (d1 < (1ll << 56)) & (d2 >= 0) & (d2 < (1ll << 56)));
    int64_t len = d1 + d2 + (int64_t)w;
    vc_assume(((len & 1) == 0) & (len >= 2 * now));
    int64_t t = now + (gap(now, w, d1, d2) >> 1);
    vc_check(2 * t == len && gap(now, w, d1, d2) >= 0, "the searches meet after half the path's length");
    vc_cover("reach");
}
VC bool c12_next__fmlNodes(const SearchFlooder *f, Node *n, u64, u64 i) {
    // the searches have not passed each other (no collision is overdue)
    return (i >= n->neighbors.size()) |
           ((bnd(n, i) & (i == 0)) | (!bnd(n, i) & (!both(n, i) | (U(nb(n, i)->reached_from_source) == U(n->reached_from_source)) | ((gapof(f, n, i) >= 0) & (gapof(f, n, i) < (1ll << 60))))));
}
VC bool c12_next__invSeen(const SearchFlooder *f, Node *n, u64 gi, u64 k, u64 t, u64 i) {
    return (gi >= i) | !eligible(f, n, gi) | ((k != SIZE_MAX) & ((int64_t)t <= when(gi)));
}
VC bool c12_next__invBest(const SearchFlooder *f, Node *n, u64 gi, u64 k, u64 t, u64 i) {
    return ((k == SIZE_MAX) & ((int64_t)t == INT64_MAX)) | ((k != SIZE_MAX) & (k < i) & (k < n->neighbors.size()) & eligible(f, n, k) & ((int64_t)t == when(k)));
}
VC bool c12_next__invStart(const SearchFlooder *f, Node *n, u64 gi, u64 i) { return (i >= 1) | (n->neighbors.size() == 0) | !bnd(n, 0); }
VC void c12_next(const SearchFlooder *f, Node *n, u64 gi) {
    vc_assume(n->neighbors.size() == n->neighbor_weights.size());
    vc_assume(gi < n->neighbors.size());
    vc_assume(n->reached_from_source != nullptr);
    vc_assume((n->distance_from_source >= 0) & (n->distance_from_source < (1ll << 56)));
    vc_assume((f->queue.cur_time >= 0) & (f->queue.cur_time < (1ll << 56)));
    vc_assume_all("Nodes");
    vc_assume_all("When");
    vc_snapshot();
    auto r = f->find_next_event_at_node_returning_neighbor_index_and_time(*n);
    vc_check(!eligible(f, n, gi) | ((r.first != SIZE_MAX) & (r.second <= when(gi))), "no edge the search can still cover is skipped or is covered earlier");
    vc_check((r.first == SIZE_MAX) | ((r.first < n->neighbors.size()) & eligible(f, n, r.first)), "only an edge the search can still cover is chosen (the boundary only when it is the target)");
    vc_check((r.first == SIZE_MAX) | (r.second == when(r.first)), "the time is when the chosen edge is covered, from this end or from both");
    vc_check((r.first != SIZE_MAX) | (r.second == INT64_MAX), "no interaction means no time");
    vc_frame("find_next_event");
    vc_cover("reach");
}
// ---------------------------------------------------------------- wake-ups
VC void c12_reschedule(SearchFlooder *f, Node *n) {
    u64 i = G()->idx;
    int64_t t = G()->when;
    QueuedEventTracker *k = &n->node_event_tracker;
    bool hq = k->has_queued_time;
    uint32_t qt = k->queued_time.value;
    vc_assume(!hq | ((uint32_t)(t - qt) != 0x80000000u));
    G()->n = 0;
    vc_snapshot();
    vc_writes(&n->node_event_tracker, sizeof(QueuedEventTracker));
    f->reschedule_events_at_search_detector_node(*n);
    vc_check(G()->node2 == U(n), "the next interaction of this node is looked up");
    vc_check(k->has_desired_time == (i != SIZE_MAX), "a wake-up is wanted exactly when there is an interaction");
    vc_check(i == SIZE_MAX || k->desired_time.value == (uint32_t)t, "the wanted wake-up is the time of the interaction");
    vc_check(i == SIZE_MAX || (k->has_queued_time && (int32_t)((uint32_t)t - k->queued_time.value) >= 0), "an event is outstanding no later than that");
    vc_check(G()->n <= 1 && (G()->n == 0 || (G()->data == U(n) && G()->time == (uint32_t)t && G()->type == LOOK_AT_SEARCH_NODE)), "the queued event is this node at that time");
    vc_check(G()->n == 1 || (k->has_queued_time == hq && (!hq || k->queued_time.value == qt)), "the outstanding event is still tracked");
    vc_frame("reschedule");
    vc_cover("reach");
}
// ---------------------------------------------------------------- the search starts at / extends to a node
VC void c12_start(SearchFlooder *f, Node *s, u64 gi) {
    u64 m = f->reached_nodes.size();
    vc_assume(gi < m);
    u64 old = U(f->reached_nodes[gi]);
    G()->node = U(s);
    G()->calls = 0;
    vc_snapshot();
    vc_writes(&s->reached_from_source, 24);
    vc_writes(&f->reached_nodes, sizeof(f->reached_nodes));
    f->do_search_starting_at_empty_search_detector_node(s);
    vc_check(U(s->reached_from_source) == U(s), "the node is its own source");
    vc_check(s->index_of_predecessor == SIZE_MAX && s->distance_from_source == 0, "no predecessor and distance zero");
    vc_check(f->reached_nodes.size() == m + 1 && U(f->reached_nodes[m]) == U(s) && U(f->reached_nodes[gi]) == old, "the node is remembered for the reset");
    vc_check(G()->calls == 1 && G()->region == U(s) && G()->when == 0 && G()->idx == SIZE_MAX, "its wake-up is scheduled once, after its new state is in place");
    vc_frame("start");
    vc_cover("reach");
}
VC void c12_explore(SearchFlooder *f, Node *e, u64 k, u64 gi) {
    u64 m = f->reached_nodes.size();
    vc_assume(gi < m);
    vc_assume((k < e->neighbors.size()) & (e->neighbors.size() == e->neighbor_weights.size()));
    u64 old = U(f->reached_nodes[gi]);
    Node *p = e->neighbors[k];
    vc_assume((p != nullptr) & (U(p) != U(e)));
    vc_assume((p->distance_from_source >= 0) & (p->distance_from_source < (1ll << 58)));
    int64_t d = p->distance_from_source;
    u64 s = U(p->reached_from_source);
    G()->node = U(e);
    G()->calls = 0;
    vc_snapshot();
    vc_writes(&e->reached_from_source, 24);
    vc_writes(&f->reached_nodes, sizeof(f->reached_nodes));
    f->do_search_exploring_empty_detector_node(*e, k);
    vc_check(U(e->reached_from_source) == s, "the source is the predecessor's source");
    vc_check(e->index_of_predecessor == k, "the predecessor is recorded");
    vc_check(e->distance_from_source == d + (int64_t)e->neighbor_weights[k], "the distance is the predecessor's plus the edge's weight");
    vc_check(f->reached_nodes.size() == m + 1 && U(f->reached_nodes[m]) == U(e) && U(f->reached_nodes[gi]) == old, "the node is remembered for the reset");
    vc_check(G()->calls == 1 && G()->region == s && G()->when == e->distance_from_source && G()->idx == k, "its wake-up is scheduled once, after its new state is in place");
    vc_frame("explore");
    vc_cover("reach");
}
// ---------------------------------------------------------------- looking at a node
VC void c12_look(SearchFlooder *f, Node *n) {
    u64 i = G()->idx;
    int64_t t = G()->when, now = f->queue.cur_time;
    vc_assume((i == SIZE_MAX) == (t == INT64_MAX));
    vc_assume((i == SIZE_MAX) | (i < n->neighbors.size()));
    vc_assume((now >= 0) & (now < (1ll << 58)));
    vc_assume(n->reached_from_source != nullptr);
    QueuedEventTracker *k = &n->node_event_tracker;
    bool hq = k->has_queued_time, hd = k->has_desired_time;
    uint32_t qt = k->queued_time.value;
    vc_assume(!hq | ((uint32_t)(t - qt) != 0x80000000u));
    bool due = (i != SIZE_MAX) & (t == now);
    Node *d = i == SIZE_MAX ? nullptr : n->neighbors[i];
    vc_assume(U(d) != U(n));
    bool grow = due && d != nullptr && d->reached_from_source == nullptr;
    u64 back = vc_fn2(2, U(d), U(n));
    G()->n = 0;
    G()->calls = 0;
    vc_snapshot();
    auto r = f->do_look_at_node_event(*n);
    vc_check(G()->node2 == U(n), "the next interaction of this node is looked up");
    vc_check(G()->calls == (grow ? 1 : 0), "the search extends exactly when a due edge leads to an unreached node");
    vc_check(!grow || (G()->node == U(d) && G()->k == back), "it extends along the edge found");
    vc_check(!due || grow || (U(r.detector_node) == U(n) && r.neighbor_index == i), "a due edge to the boundary or to the other search is the collision edge");
    vc_check((due && !grow) || r.detector_node == nullptr, "nothing else is a collision");
    bool again = i != SIZE_MAX && (grow || !due);
    vc_check(!again || (k->has_desired_time && k->desired_time.value == (uint32_t)t), "the node is looked at again when its next interaction is due");
    vc_check(!again || (k->has_queued_time && (int32_t)((uint32_t)t - k->queued_time.value) >= 0), "an event is outstanding no later than that");
    vc_check(G()->n == 0 || (again && G()->data == U(n) && G()->time == (uint32_t)t && G()->type == LOOK_AT_SEARCH_NODE), "the queued event is this node at that time");
    vc_cover("reach");
}
// ---------------------------------------------------------------- the whole search
VC void contract_starting(SearchFlooder *f, Node *n) {
    // the target (if any) starts first, then the source
    vc_check((U(n) != 0) & (G()->calls <= 1), "only the two given nodes start a search");
    if (G()->calls == 0)
        G()->node = U(n);
    else
        G()->node2 = U(n);
    G()->calls = G()->calls + 1;
}
VC FloodCheckEvent contract_dequeue(Queue *q) {
    vc_check(G()->pending == 0, "every approved event is acted on before the next one");
    vc_check(q->_num_enqueued != 0, "events are taken only while there are some");
    q->_num_enqueued = vc_any_u64();
    Node *n = (Node *)vc_any_u64();
    FloodCheckEvent ev(n, cyclic_time_int(vc_any_u32()));
    QueuedEventTracker *k = &n->node_event_tracker;
    G()->data = U(n);
    G()->pending = (k->has_queued_time & (k->queued_time.value == ev.time.value) & k->has_desired_time & (k->desired_time.value == ev.time.value)) ? 1 : 0;
    return ev;
}
VC SearchGraphEdge contract_look(SearchFlooder *f, Node *n) {
    vc_check((G()->pending == 1) & (U(n) == G()->data), "exactly the approved events are acted on, once");
    vc_check(G()->idx == 0, "the search ends with the first collision");
    G()->pending = 0;
    SearchGraphEdge e{(Node *)vc_any_u64(), vc_any_u64()};
    G()->region = U(e.detector_node);
    G()->k = e.neighbor_index;
    G()->idx = e.detector_node != nullptr;
    return e;
}
VC bool c12_run__invPending(SearchFlooder *f, Node *s, Node *d) { return (G()->pending == 0) & (G()->idx == 0); }
VC void c12_run(SearchFlooder *f, Node *s, Node *d) {
    G()->pending = 0;
    G()->calls = 0;
    G()->idx = 0;
    vc_assume(s != nullptr);
    vc_snapshot();
    auto e = f->run_until_collision(s, d);
    vc_check(f->target_type == (d == nullptr ? BOUNDARY : DETECTOR_NODE), "the kind of target is the one given");
    vc_check(d == nullptr ? G()->calls == 1 && G()->node == U(s)
                          : G()->calls == 2 && ((G()->node == U(d) && G()->node2 == U(s)) || (G()->node == U(s) && G()->node2 == U(d))), "the search starts at exactly the two given nodes");
    vc_check(e.detector_node == nullptr ? f->queue._num_enqueued == 0 : G()->idx == 1 && U(e.detector_node) == G()->region && e.neighbor_index == G()->k, "it ends with the collision found, or when no event is left");
    vc_cover("reach");
}
// ---------------------------------------------------------------- visiting paths
// vc_fn2(5, n, k): any quantity attached to the edge n -> neighbour k;  vc_fn1(4, n): its sum along the predecessors of n
VC bool c12_trace__fmlSum(SearchFlooder *f, u64 x) {
    Node *n = (Node *)x;
    u64 k = n->index_of_predecessor;
    return (x == 0) | ((k == SIZE_MAX) & (vc_fn1(4, x) == 0)) |
           ((k != SIZE_MAX) & (k < n->neighbors.size()) & (U(n->neighbors[k]) != 0) & (vc_fn1(4, x) == vc_fn2(5, x, k) + vc_fn1(4, U(n->neighbors[k]))));
}
VC bool c12_trace__invTotal(SearchFlooder *f, u64 x) { return (x != 0) & (G()->data + vc_fn1(4, x) == vc_fn1(4, G()->node)); }
VC void c12_trace(SearchFlooder *f) {
    Node *n = (Node *)G()->node;
    vc_assume(n != nullptr);
    vc_assume_all("Sum");
    G()->data = 0;
    vc_snapshot();
    f->iter_edges_on_path_traced_back_from_node(n, [](const SearchGraphEdge &e) { G()->data = G()->data + vc_fn2(5, U(e.detector_node), e.neighbor_index); });
    vc_check(G()->data == vc_fn1(4, G()->node), "every edge to a predecessor, up to the source, is visited once (any sum over the visited edges is the sum along the path)");
    vc_frame("trace");
    vc_cover("reach");
}
VC void contract_trace(SearchFlooder *f, Node *n) { G()->data = G()->data + vc_fn1(4, U(n)); }
VC void c12_collision(SearchFlooder *f, SearchGraphEdge *c) {
    Node *a = c->detector_node, *b = a->neighbors[c->neighbor_index];
    vc_assume(c->neighbor_index < a->neighbors.size());
    G()->data = 0;
    vc_snapshot();
    f->iter_edges_tracing_back_from_collision_edge(*c, [](const SearchGraphEdge &e) { G()->data = G()->data + vc_fn2(5, U(e.detector_node), e.neighbor_index); });
    vc_check(G()->data == vc_fn1(4, U(a)) + (b == nullptr ? 0 : vc_fn1(4, U(b))) + vc_fn2(5, U(a), c->neighbor_index), "both half paths and the edge joining them are visited once");
    vc_frame("collision");
    vc_cover("reach");
}
VC SearchGraphEdge contract_run(SearchFlooder *f, Node *s, Node *d) {
    G()->calls = G()->calls + 1;
    G()->node = U(s);
    G()->node2 = U(d);
    G()->pending = 1;
    return {(Node *)G()->region, G()->k};
}
VC void contract_collision(SearchFlooder *f, const SearchGraphEdge *e) {
    vc_check((G()->pending == 1) & (G()->region != 0) & (U(e->detector_node) == G()->region) & (e->neighbor_index == G()->k), "the path through the collision edge found is visited before the reset");
    G()->kids = G()->kids + 1;
}
VC void contract_reset(SearchFlooder *f) { G()->pending = G()->pending == 1 ? 2 : 3; }
VC void c12_middle(SearchFlooder *f, u64 s, u64 d) {
    vc_assume((s < f->graph.nodes.size()) & ((d == SIZE_MAX) | (d < f->graph.nodes.size())));
    G()->calls = 0;
    G()->kids = 0;
    G()->pending = 0;
    vc_snapshot();
    bool thrown = false;
    try {
        f->iter_edges_on_shortest_path_from_middle(s, d, [](const SearchGraphEdge &e) {});
    } catch (...) {
        thrown = true;
    }
    vc_check(G()->calls == 1 && G()->node == U(&f->graph.nodes[s]) && G()->node2 == (d == SIZE_MAX ? 0 : U(&f->graph.nodes[d])), "the search runs once between the two given nodes, or to the boundary");
    vc_check(thrown == (G()->region == 0), "an error is raised exactly when there is no path");
    vc_check(G()->kids == (thrown ? 0 : 1), "the path found is visited once");
    vc_check(G()->pending == 2, "the search is reset once at the end, path or no path");
    vc_cover("reach");
}
struct Path { std::vector<SearchGraphEdge> edges; };
// gi: an arbitrary edge of the path
VC bool c12_reverse__invCalls(SearchFlooder *f, Path *p, u64 gi, u64 i) { return (G()->calls == i) & (i <= p->edges.size()); }
VC bool c12_reverse__invSeen(SearchFlooder *f, Path *p, u64 gi, u64 i) {
    Node *a = p->edges[gi].detector_node, *b = a->neighbors[p->edges[gi].neighbor_index];
    return (p->edges.size() - 1 - gi >= i) | ((G()->node == U(b)) & (G()->node2 == vc_fn2(2, U(b), U(a))));
}
VC bool c12_reverse__fmlPath(SearchFlooder *f, Path *p, u64 gi, u64 i) {
    const Node *a = p->edges[i].detector_node;
    return (i >= p->edges.size()) | ((p->edges[i].neighbor_index < a->neighbors.size()) & (a->neighbors[p->edges[i].neighbor_index] != nullptr));
}
VC void c12_reverse(SearchFlooder *f, Path *p, u64 gi) {
    vc_assume(gi < p->edges.size());
    vc_assume_all("Path");
    Node *a = p->edges[gi].detector_node, *b = a->neighbors[p->edges[gi].neighbor_index];
    G()->calls = 0;
    G()->k = p->edges.size() - 1 - gi;
    vc_snapshot();
    f->reverse_path_and_handle_edges(p->edges, [](const SearchGraphEdge &e) {
        bool it = G()->calls == G()->k;
        G()->node = (u64)vc_sel(it, (int64_t)U(e.detector_node), (int64_t)G()->node);
        G()->node2 = (u64)vc_sel(it, (int64_t)e.neighbor_index, (int64_t)G()->node2);
        G()->calls = G()->calls + 1;
    });
    vc_check(G()->calls == p->edges.size(), "every edge is visited once");
    vc_check(G()->node == U(b) && G()->node2 == vc_fn2(2, U(b), U(a)), "in reverse order, each from its other end");
    vc_frame("reverse");
    vc_cover("reach");
}
// ---------------------------------------------------------------- reset
#define CLEAN(n) ((U((n)->reached_from_source) == 0) & ((n)->index_of_predecessor == SIZE_MAX) & !(n)->node_event_tracker.has_desired_time & !(n)->node_event_tracker.has_queued_time)
VC bool c12_reset_graph__invDone(SearchFlooder *f, u64 gi, u64 i) { return (gi >= i) | CLEAN(f->reached_nodes[gi]); }
VC bool c12_reset_graph__invDone2(SearchFlooder *f, u64 gi) { return CLEAN(f->reached_nodes[gi]); }
VC void c12_reset_graph(SearchFlooder *f, u64 gi) {
    vc_assume(gi < f->reached_nodes.size());
    Node *n = f->reached_nodes[gi];
    vc_snapshot();
    f->reset_graph();
    vc_check(CLEAN(n), "every reached node is unreached again and wants no wake-up");
    vc_check(f->reached_nodes.size() == 0, "no node is left to reset");
    vc_cover("reach");
}
VC bool c12_reset_graph_other__fmlNotIn(SearchFlooder *f, Node *n, u64 i) { return (i >= f->reached_nodes.size()) | (U(f->reached_nodes[i]) != U(n)); }
VC bool c12_reset_graph_other__invSame(SearchFlooder *f, Node *n) {
    return (U(n->reached_from_source) == G()->node) & (n->index_of_predecessor == G()->k) & (n->distance_from_source == G()->when);
}
VC void c12_reset_graph_other(SearchFlooder *f, Node *n) {
    vc_assume_all("NotIn");
    vc_assume(c12_reset_graph_other__invSame(f, n));
    vc_snapshot();
    f->reset_graph();
    vc_check(c12_reset_graph_other__invSame(f, n), "no other node changes");
    vc_cover("reach");
}
VC void c12_node_reset(Node *n) {
    vc_snapshot();
    vc_writes(&n->reached_from_source, 24);
    vc_writes(&n->node_event_tracker, sizeof(QueuedEventTracker));
    n->reset();
    vc_check(CLEAN(n), "a reset node is unreached and wants no wake-up");
    vc_frame("node reset");
    vc_cover("reach");
}
VC void contract_reset_graph(SearchFlooder *f) { G()->calls = G()->calls + 1; }
VC void contract_reset_queue(Queue *q) {
    G()->n = G()->n + 1;
    G()->node = U(q);
}
VC void c12_reset(SearchFlooder *f) {
    G()->calls = 0;
    G()->n = 0;
    vc_snapshot();
    f->reset();
    vc_check(G()->calls == 1, "the reached nodes are reset");
    vc_check(G()->n == 1 && G()->node == U(&f->queue), "the search queue is emptied and its clock restarted");
    vc_frame("reset");
    vc_cover("reach");
}
VC bool c12_index_of_neighbor__invNone(Node *n, Node *t, u64 gi, u64 k) { return (gi >= k) | (U(n->neighbors[gi]) != U(t)); }
VC void c12_index_of_neighbor(Node *n, Node *t, u64 gi) {
    vc_assume(gi < n->neighbors.size());
    vc_snapshot();
    u64 r;
    try {
        r = n->index_of_neighbor(t);
    } catch (...) {
        vc_check(U(n->neighbors[gi]) != U(t), "a neighbour that is there is found");
        vc_cover("throws");
        return;
    }
    vc_check(r < n->neighbors.size() && U(n->neighbors[r]) == U(t), "the position found is that neighbour's");
    vc_check(gi >= r || U(n->neighbors[gi]) != U(t), "the first such position is found");
    vc_frame("index_of_neighbor");
    vc_cover("reach");
}
