// C07: region bookkeeping and notifications.
#include "flood.h"
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))

// ---------------------------------------------------------------- contracts of callees
VC void contract_enqueue(Queue *q, FloodCheckEvent ev) {
    G()->n = G()->n + 1;
    G()->data = U(ev.data_look_at_node);
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
}
// (C06) the node's wake-up becomes exactly its next interaction, given its state at this moment
VC void contract_reschedule(GraphFlooder *f, DetectorNode *n) {
    if (U(n) == G()->node) {
        G()->calls = G()->calls + 1;
        G()->region = U(n->region_that_arrived_top);
        G()->when = n->wrapped_radius_cached;
        G()->rad = n->region_that_arrived_top->radius.data;
    }
}
VC cumulative_time_int contract_wrapped(const DetectorNode *n) {
    // depends on the node's owner chain, source and arrival radius at this moment
    return (int64_t)vc_fn3(1, U(n->region_that_arrived), U(n->region_that_arrived_top), (u64)n->radius_of_arrival);
}
VC std::pair<size_t, cumulative_time_int> contract_find_next(const GraphFlooder *f, const DetectorNode *n) {
    G()->node2 = U(n);
    return {G()->idx, G()->when};
}
VC void contract_arriving(GraphFlooder *f, GraphFillRegion *r, DetectorNode *e, const DetectorNode *from, size_t k) {
    G()->calls = G()->calls + 1;
    G()->region = U(r);
    G()->node = U(e);
    G()->node2 = U(from);
    G()->k = k;
}
VC size_t contract_index_of(const DetectorNode *n, DetectorNode *t) { return vc_fn2(2, U(n), U(t)); }
VC GraphFillRegion *contract_heir(const DetectorNode *n) { return (GraphFillRegion *)vc_fn1(3, U(n)); }
VC void contract_schedule_shrink(GraphFlooder *f, GraphFillRegion *r) {
    G()->idx = G()->idx + 1;
    G()->region = U(r);
    G()->data = (u64)r->radius.data;
}
// (induction) the recursive call handles every node of the child's total area
VC void contract_each_node(GraphFillRegion *r, void *func) {
    if (U(r) == G()->child)
        G()->kids = G()->kids + 1;
}
VC void contract_each_region(GraphFillRegion *r, void *func) {
    if (U(r) == G()->child)
        G()->kids = G()->kids + 1;
}
VC void contract_wrap(GraphFillRegion *r, GraphFillRegion *p) {
    if (U(r) == G()->child) {
        G()->kids = G()->kids + 1;
        G()->node2 = U(p);
    }
    r->blossom_parent = p;
    r->blossom_parent_top = p;
}
VC MwpmEvent contract_neighbor(GraphFlooder *f, DetectorNode *s, size_t k, DetectorNode *d) {
    G()->calls = G()->calls + 1;
    G()->node = U(s);
    G()->k = k;
    G()->region = U(d);
    return MwpmEvent(RegionHitRegionEventData{(GraphFillRegion *)1, nullptr, {nullptr, nullptr, 77}});
}
VC FloodCheckEvent contract_dequeue(Queue *q) {
    FloodCheckEvent ev((DetectorNode *)vc_any_u64(), cyclic_time_int(vc_any_u32()));
    ev.tentative_event_type = (FloodCheckEventType)vc_any_u8();
    G()->data = U(ev.data_look_at_node);
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
    G()->k = 2;
    return ev;
}
VC bool contract_decision(GraphFlooder *f, FloodCheckEvent ev) {
    vc_check((U(ev.data_look_at_node) == G()->data) & (ev.time.value == G()->time) & ((uint8_t)ev.tentative_event_type == G()->type) & (G()->k == 2),
             "each event handed out is put to its tracker once, unchanged");
    uint64_t b = vc_any_bool() ? 1 : 0;
    G()->k = b;
    return b == 1;
}
VC FloodCheckEvent contract_dequeue_valid(GraphFlooder *f) {
    vc_check(G()->pending == 0, "every approved event is acted on before the next one");
    FloodCheckEvent ev((DetectorNode *)vc_any_u64(), cyclic_time_int(vc_any_u32()));
    ev.tentative_event_type = (FloodCheckEventType)vc_any_u8();
    G()->data = U(ev.data_look_at_node);
    G()->time = ev.time.value;
    G()->type = (uint8_t)ev.tentative_event_type;
    G()->pending = 1;
    return ev;
}
VC MwpmEvent contract_process(GraphFlooder *f, FloodCheckEvent ev) {
    vc_check((U(ev.data_look_at_node) == G()->data) & (ev.time.value == G()->time) & ((uint8_t)ev.tentative_event_type == G()->type) & (G()->pending == 1),
             "the approved event is acted on once, unchanged");
    G()->pending = 0;
    MwpmEvent r;
    r.event_type = (MwpmEventType)vc_any_u8();
    r.blossom_shatter_event_data.blossom_region = (GraphFillRegion *)vc_any_u64();
    G()->region = U(r.blossom_shatter_event_data.blossom_region);
    G()->node2 = (uint8_t)r.event_type;
    return r;
}

// ---------------------------------------------------------------- a region starts at / grows into a node
VC void c07_created(GraphFlooder *f, GraphFillRegion *r, DetectorNode *n, u64 gi) {
    G()->node = U(n);
    G()->calls = 0;
    u64 m = r->shell_area.size();
    vc_assume(gi < m);
    u64 old = U(r->shell_area[gi]), obs = n->observables_crossed_from_source;
    vc_snapshot();
    vc_writes(&n->region_that_arrived, 48);
    vc_writes(&r->shell_area, sizeof(r->shell_area));
    f->do_region_created_at_empty_detector_node(*r, *n);
    vc_check(U(n->region_that_arrived) == U(r) && U(n->region_that_arrived_top) == U(r), "the node is owned by the region that starts there");
    vc_check(U(n->reached_from_source) == U(n), "the node is its own source");
    vc_check(n->radius_of_arrival == 0 && n->wrapped_radius_cached == 0, "the region arrived with radius zero");
    vc_check(n->observables_crossed_from_source == obs, "no observable is crossed");
    vc_check(r->shell_area.size() == m + 1 && U(r->shell_area[m]) == U(n), "the node is added to the region's area");
    vc_check(U(r->shell_area[gi]) == old, "the area keeps its other nodes");
    vc_check(G()->calls == 1 && G()->region == U(r) && G()->when == 0, "the node's wake-up is rescheduled once, after its new state is in place");
    vc_frame("do_region_created_at_empty_detector_node");
    vc_cover("reach");
}
VC void c07_arriving(GraphFlooder *f, GraphFillRegion *r, DetectorNode *e, const DetectorNode *from, u64 k, u64 gi) {
    vc_assume(U(e) != U(from));
    vc_assume(k < from->neighbor_observables.size());
    G()->node = U(e);
    G()->calls = 0;
    u64 m = r->shell_area.size();
    vc_assume(gi < m);
    u64 old = U(r->shell_area[gi]);
    int64_t t = f->queue.cur_time, d = r->radius.data;
    vc_assume(legal(d) & fits(base(d)) & (t >= 0) & (t < (1ll << 58)));
    vc_snapshot();
    vc_writes(&e->region_that_arrived, 48);
    vc_writes(&r->shell_area, sizeof(r->shell_area));
    f->do_region_arriving_at_empty_detector_node(*r, *e, *from, k);
    int64_t now = base(d) + vc_sel(grows(d), t, vc_sel(shrinks(d), -t, 0));
    vc_check(e->observables_crossed_from_source == (from->observables_crossed_from_source ^ from->neighbor_observables[k]), "observables: those of the neighbour's path and of the crossed edge");
    vc_check(U(e->reached_from_source) == U(from->reached_from_source), "the source is the neighbour's source");
    vc_check(e->radius_of_arrival == now, "the radius at arrival is the region's radius now");
    vc_check(U(e->region_that_arrived) == U(r), "the node is owned by the arriving region");
    vc_check(U(e->region_that_arrived_top) == U(r->blossom_parent_top), "the node's top region is the arriving region's top");
    vc_check((u64)e->wrapped_radius_cached == vc_fn3(1, U(r), U(r->blossom_parent_top), (u64)now), "the wrapped radius is computed for the new state");
    vc_check(r->shell_area.size() == m + 1 && U(r->shell_area[m]) == U(e), "the node is added to the region's area");
    vc_check(U(r->shell_area[gi]) == old, "the area keeps its other nodes");
    vc_check(G()->calls == 1 && G()->region == U(r->blossom_parent_top) && G()->when == e->wrapped_radius_cached, "the node's wake-up is rescheduled once, after its new state is in place");
    vc_frame("do_region_arriving_at_empty_detector_node");
    vc_cover("reach");
}
// the wrapped radius: sum of the radii of the enclosing regions below the top, minus the radius at arrival.
// uf4(r): that sum from r upwards (defined by its recursion equation)
VC bool c07_wrapped_radius__fmlSum(DetectorNode *n, u64 r) {
    GraphFillRegion *p = (GraphFillRegion *)r;
    u64 top = U(n->region_that_arrived_top);
    return (r == top) | (vc_fn1(4, r) == (u64)base(p->radius.data) + vc_fn1(4, U(p->blossom_parent)));
}
VC bool c07_wrapped_radius__invTotal(DetectorNode *n, u64 total, u64 r) { return total + vc_fn1(4, r) == vc_fn1(4, U(n->region_that_arrived)); }
VC void c07_wrapped_radius(DetectorNode *n) {
    vc_assume_all("Sum");
    vc_assume(vc_fn1(4, U(n->region_that_arrived_top)) == 0);
    vc_snapshot();
    int64_t w = n->compute_wrapped_radius();
    vc_check(w == (n->reached_from_source == nullptr ? 0 : (int64_t)vc_fn1(4, U(n->region_that_arrived)) - n->radius_of_arrival),
             "the wrapped radius is the growth of the enclosing regions since arrival");
    vc_frame("compute_wrapped_radius");
    vc_cover("reach");
}
// the child of the top region that holds this node.  uf5(r) != 0: r is the owner or one of its ancestors
VC bool c07_heir__fmlChain(DetectorNode *n, u64 r) {
    return (vc_fn1(5, r) == 0) | (vc_fn1(5, U(((GraphFillRegion *)r)->blossom_parent)) != 0);
}
VC bool c07_heir__invChain(DetectorNode *n, u64 r) { return vc_fn1(5, r) != 0; }
VC void c07_heir(DetectorNode *n) {
    vc_assume_all("Chain");
    vc_assume(vc_fn1(5, U(n->region_that_arrived)) != 0);
    vc_snapshot();
    GraphFillRegion *h = n->heir_region_on_shatter();
    vc_check(vc_fn1(5, U(h)) != 0, "the heir contains the node");
    vc_check(U(h->blossom_parent) == U(n->region_that_arrived_top), "the heir is a child of the top region");
    vc_frame("heir_region_on_shatter");
    vc_cover("reach");
}

// ---------------------------------------------------------------- notifications
VC void c07_neighbor(GraphFlooder *f, DetectorNode *s, u64 k, DetectorNode *d) {
    vc_assume(k < s->neighbor_observables.size());
    vc_assume((s->region_that_arrived == nullptr) == (s->region_that_arrived_top == nullptr));
    vc_assume((d->region_that_arrived == nullptr) == (d->region_that_arrived_top == nullptr));
    vc_assume(s->region_that_arrived != nullptr || d->region_that_arrived != nullptr);
    G()->calls = 0;
    bool es = s->region_that_arrived == nullptr, ed = d->region_that_arrived == nullptr;
    vc_snapshot();
    MwpmEvent ev = f->do_neighbor_interaction(*s, k, *d);
    vc_check(G()->calls == ((es | ed) ? 1 : 0), "a region grows into a node exactly when one of the two is empty");
    vc_check((ev.event_type == NO_EVENT) == (es | ed), "a collision is reported exactly when both nodes are owned");
    if (ed) {
        vc_check(G()->region == U(s->region_that_arrived_top) && G()->node == U(d) && G()->node2 == U(s) && G()->k == k, "the source's top region grows into the neighbour along this edge");
    } else if (es) {
        vc_check(G()->region == U(d->region_that_arrived_top) && G()->node == U(s) && G()->node2 == U(d) && G()->k == vc_fn2(2, U(d), U(s)), "the neighbour's top region grows into the node along the reverse edge");
    } else {
        auto &e = ev.region_hit_region_event_data;
        vc_check(ev.event_type == REGION_HIT_REGION, "collision notification");
        vc_check(U(e.region1) == U(s->region_that_arrived_top) && U(e.region2) == U(d->region_that_arrived_top), "the colliding top-level regions are named in order");
        vc_check(U(e.edge.loc_from) == U(s->reached_from_source) && U(e.edge.loc_to) == U(d->reached_from_source), "the joined detection events are named in order");
        vc_check(e.edge.obs_mask == (s->observables_crossed_from_source ^ d->observables_crossed_from_source ^ s->neighbor_observables[k]), "the observables of the whole joining path");
    }
    vc_frame("do_neighbor_interaction");
    vc_cover("reach");
}
VC void c07_boundary(GraphFlooder *f, DetectorNode *n) {
    vc_assume(n->neighbor_observables.size() > 0);
    vc_snapshot();
    MwpmEvent ev = f->do_region_hit_boundary_interaction(*n);
    auto &e = ev.region_hit_boundary_event_data;
    vc_check(ev.event_type == REGION_HIT_BOUNDARY, "boundary notification");
    vc_check(U(e.region) == U(n->region_that_arrived_top), "the top-level region is named");
    vc_check(U(e.edge.loc_from) == U(n->reached_from_source) && e.edge.loc_to == nullptr, "the path leads from the source to the boundary");
    vc_check(e.edge.obs_mask == (n->observables_crossed_from_source ^ n->neighbor_observables[0]), "the observables of the path to the boundary");
    vc_frame("do_region_hit_boundary_interaction");
    vc_cover("reach");
}
VC void c07_implosion(GraphFillRegion *r) {
    AltTreeNode *a = r->alt_tree_node, *p = a->parent.alt_tree_node;
    vc_snapshot();
    MwpmEvent ev = GraphFlooder::do_degenerate_implosion(*r);
    auto &e = ev.region_hit_region_event_data;
    vc_check(ev.event_type == REGION_HIT_REGION, "collision notification");
    vc_check(U(e.region1) == U(p->outer_region) && U(e.region2) == U(a->outer_region), "the regions on either side of the vanishing region collide");
    vc_check(U(e.edge.loc_from) == U(a->parent.edge.loc_to) && U(e.edge.loc_to) == U(a->inner_to_outer_edge.loc_to), "the path joins the outer detection events");
    vc_check(e.edge.obs_mask == (a->inner_to_outer_edge.obs_mask ^ a->parent.edge.obs_mask), "the observables of both edges");
    vc_frame("do_degenerate_implosion");
    vc_cover("reach");
}
VC void c07_shatter(GraphFillRegion *r) {
    AltTreeNode *a = r->alt_tree_node;
    vc_snapshot();
    MwpmEvent ev = GraphFlooder::do_blossom_shattering(*r);
    auto &e = ev.blossom_shatter_event_data;
    vc_check(ev.event_type == BLOSSOM_SHATTER && U(e.blossom_region) == U(r), "shatter notification for this blossom");
    vc_check(U(e.in_parent_region) == vc_fn1(3, U(a->parent.edge.loc_from)), "the child holding the edge to the tree parent is named");
    vc_check(U(e.in_child_region) == vc_fn1(3, U(a->inner_to_outer_edge.loc_from)), "the child holding the edge to the outer region is named");
    vc_frame("do_blossom_shattering");
    vc_cover("reach");
}
VC void c07_shrinking(GraphFlooder *f, GraphFillRegion *r, u64 gi) {
    u64 m = r->shell_area.size(), c = r->blossom_children.size();
    vc_assume(m == 0 || gi < m);
    AltTreeNode *a = r->alt_tree_node, *p = a->parent.alt_tree_node;
    u64 old = m == 0 ? 0 : U(r->shell_area[gi]);
    DetectorNode *n = m == 0 ? nullptr : r->shell_area[m - 1];
    vc_assume(m == 0 || n != nullptr);
    G()->node = U(n);
    G()->calls = 0;
    G()->idx = 0;
    vc_snapshot();
    if (m > 1 || (m == 1 && c != 0)) {
        vc_writes(&r->shell_area, sizeof(r->shell_area));
        vc_writes(&n->region_that_arrived, 48);
    }
    MwpmEvent ev = f->do_region_shrinking(*r);
    if (m == 0) {
        vc_check(ev.event_type == BLOSSOM_SHATTER && U(ev.blossom_shatter_event_data.blossom_region) == U(r), "a blossom without own nodes shatters");
        vc_check(U(ev.blossom_shatter_event_data.in_parent_region) == vc_fn1(3, U(a->parent.edge.loc_from)), "the child holding the edge to the tree parent is named");
    } else if (m == 1 && c == 0) {
        vc_check(ev.event_type == REGION_HIT_REGION && U(ev.region_hit_region_event_data.region1) == U(p->outer_region) && U(ev.region_hit_region_event_data.region2) == U(a->outer_region), "a region shrunk to its source lets its tree neighbours collide");
    } else {
        vc_check(ev.event_type == NO_EVENT, "leaving a node is not an event for the matcher");
        vc_check(r->shell_area.size() == m - 1, "the region gives up one node");
        vc_check(gi == m - 1 || U(r->shell_area[gi]) == old, "the area keeps its other nodes");
        vc_check(n->region_that_arrived == nullptr && n->region_that_arrived_top == nullptr && n->reached_from_source == nullptr, "the node left is owned by nothing");
        vc_check(n->observables_crossed_from_source == 0 && n->radius_of_arrival == 0 && n->wrapped_radius_cached == 0, "the node left records nothing");
        vc_check(G()->calls == 1 && G()->when == 0, "the node left is rescheduled once, in its new state");
        vc_check(G()->idx == 1 && G()->region == U(r), "the next shrink event of the region is scheduled");
    }
    vc_frame("do_region_shrinking");
    vc_cover("reach");
}
VC void c07_schedule_shrink(GraphFlooder *f, GraphFillRegion *r) {
    u64 m = r->shell_area.size();
    const DetectorNode *n = r->shell_area[m - 1];
    vc_assume(shrinks(r->radius.data) & fits(base(r->radius.data)));
    vc_assume((m == 0) | ((n != nullptr) & (U(n->region_that_arrived_top) == U(r)) & n_ok_plain(n)));
    QueuedEventTracker *k = &r->shrink_event_tracker;
    int64_t t = vc_sel(m == 0, base(r->radius.data), n_base_plain(n));     // base - t == 0
    vc_assume(!k->has_queued_time | ((uint32_t)(t - k->queued_time.value) != 0x80000000u));
    G()->n = 0;
    bool hq = k->has_queued_time;
    uint32_t qt = k->queued_time.value;
    vc_snapshot();
    vc_writes(&r->shrink_event_tracker, sizeof(QueuedEventTracker));
    f->schedule_tentative_shrink_event(*r);
    vc_check(k->has_desired_time && k->desired_time.value == (uint32_t)t, "the wanted wake-up is when the radius at the last node (or of the blossom) reaches zero");
    vc_check(G()->n <= 1 && (G()->n == 0 || (G()->data == U(r) && G()->time == (uint32_t)t && G()->type == LOOK_AT_SHRINKING_REGION)), "the queued event is this region at that time");
    vc_check(k->has_queued_time && (int32_t)((uint32_t)t - k->queued_time.value) >= 0, "an event is outstanding no later than that");
    vc_check(G()->n == 1 || (hq && k->queued_time.value == qt), "the outstanding event is still tracked");
    vc_frame("schedule_tentative_shrink_event");
    vc_cover("reach");
}

// ---------------------------------------------------------------- direction changes
// gi: an arbitrary node of the region's own area; gc: an arbitrary child
#define AREA_INV(h)                                                                                                    \
    VC bool h##__invBack(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 i) { return (r->shell_area.size() - gi - 1 >= i) | (G()->calls >= 1); } \
    VC bool h##__invFore(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 i) { return (gi >= i) | (G()->calls >= 1); } \
    VC bool h##__invKids(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 i) { return (gc >= i) | (G()->kids >= 1); } \
    VC bool h##__invRad(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc) { return (G()->calls == 0) | (G()->rad == r->radius.data); } \
    VC bool h##__invCount(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 i) { return (G()->calls <= i) & (i <= (1ull << 62)); } \
    VC bool h##__invCountKids(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 i) { return (G()->kids <= i) & (i <= (1ull << 62)); } \
    VC bool h##__invCount2(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc) { return (G()->calls <= r->shell_area.size()) & (G()->kids <= r->blossom_children.size()); }
static inline void area(GraphFillRegion *r, u64 gi, u64 gc) {
    vc_assume(gi < r->shell_area.size());
    vc_assume(gc < r->blossom_children.size());
    DetectorNode *n = r->shell_area[gi];
    vc_assume(U(n->region_that_arrived_top) == U(r));
    G()->node = U(n);
    G()->calls = 0;
    G()->child = U(r->blossom_children[gc].region);
    G()->kids = 0;
    G()->idx = 0;
}
static inline int64_t at(int64_t d, int64_t t) { return base(d) + vc_sel(grows(d), t, vc_sel(shrinks(d), -t, 0)); }
static inline void ranges(GraphFlooder *f, GraphFillRegion *r) {
    int64_t t = f->queue.cur_time, d = r->radius.data;
    vc_assume(legal(d) & fits(base(d)) & (t >= 0) & (t < (1ll << 58)));
}
AREA_INV(c07_set_growing)
VC void c07_set_growing(GraphFlooder *f, GraphFillRegion *r, u64 gi, u64 gc) {
    area(r, gi, gc);
    ranges(f, r);
    int64_t t = f->queue.cur_time, d = r->radius.data;
    QueuedEventTracker *k = &r->shrink_event_tracker;
    bool hq = k->has_queued_time;
    uint32_t qt = k->queued_time.value;
    vc_snapshot();
    vc_writes(&r->radius, sizeof(r->radius));
    vc_writes(&r->shrink_event_tracker, sizeof(QueuedEventTracker));
    f->set_region_growing(*r);
    vc_check(grows(r->radius.data) && at(r->radius.data, t) == at(d, t), "the radius now grows and is unchanged at this moment");
    vc_check(!k->has_desired_time && k->has_queued_time == hq && (!hq || k->queued_time.value == qt), "no shrink event is wanted; an outstanding one is still tracked");
    vc_check(G()->calls >= 1 && G()->rad == r->radius.data, "every node of the region is rescheduled with the new radius");
    vc_check(G()->kids >= 1, "every child's nodes are rescheduled");
    vc_frame("set_region_growing");
    vc_cover("reach");
}
AREA_INV(c07_set_frozen)
VC void c07_set_frozen(GraphFlooder *f, GraphFillRegion *r, u64 gi, u64 gc) {
    area(r, gi, gc);
    ranges(f, r);
    int64_t t = f->queue.cur_time, d = r->radius.data;
    QueuedEventTracker *k = &r->shrink_event_tracker;
    bool hq = k->has_queued_time;
    uint32_t qt = k->queued_time.value;
    vc_snapshot();
    vc_writes(&r->radius, sizeof(r->radius));
    vc_writes(&r->shrink_event_tracker, sizeof(QueuedEventTracker));
    f->set_region_frozen(*r);
    vc_check(still(r->radius.data) && at(r->radius.data, t) == at(d, t), "the radius stops and is unchanged at this moment");
    vc_check(!k->has_desired_time && k->has_queued_time == hq && (!hq || k->queued_time.value == qt), "no shrink event is wanted; an outstanding one is still tracked");
    vc_check(!shrinks(d) || (G()->calls >= 1 && G()->rad == r->radius.data), "every node of a region that was shrinking is rescheduled with the new radius");
    vc_check(!shrinks(d) || G()->kids >= 1, "every child's nodes are rescheduled if the region was shrinking");
    vc_frame("set_region_frozen");
    vc_cover("reach");
}
#define NOWAKE(h)                                                                                                       \
    VC bool h##__invBack(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx, u64 i) { return (r->shell_area.size() - gi - 1 >= i) | !r->shell_area[gi]->node_event_tracker.has_desired_time; } \
    VC bool h##__invFore(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx, u64 i) { return (gi >= i) | !r->shell_area[gi]->node_event_tracker.has_desired_time; }       \
    VC bool h##__invKeep(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx, u64 i) { return (gi < i) | !r->shell_area[gi]->node_event_tracker.has_desired_time; }        \
    VC bool h##__invDone(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx) { return !r->shell_area[gi]->node_event_tracker.has_desired_time; }        \
    VC bool h##__invOther(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx) {                                 \
        vc_old(true);                                                                                                   \
        bool w = ((DetectorNode *)gx)->node_event_tracker.has_desired_time;                                             \
        vc_old(false);                                                                                                  \
        return w | !((DetectorNode *)gx)->node_event_tracker.has_desired_time;                                          \
    }                                                                                                                   \
    VC bool h##__invKids(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx, u64 i) { return (gc >= i) | (G()->kids >= 1); } \
    VC bool h##__invCountKids(GraphFlooder *, GraphFillRegion *r, u64 gi, u64 gc, u64 gx, u64 i) { return (G()->kids <= i) & (i <= (1ull << 62)); }
NOWAKE(c07_set_shrinking)
VC void c07_set_shrinking(GraphFlooder *f, GraphFillRegion *r, u64 gi, u64 gc, u64 gx) {
    area(r, gi, gc);
    ranges(f, r);
    int64_t t = f->queue.cur_time, d = r->radius.data;
    DetectorNode *x = (DetectorNode *)gx;
    bool xd = x->node_event_tracker.has_desired_time, xq = x->node_event_tracker.has_queued_time;
    uint32_t xt = x->node_event_tracker.queued_time.value, xw = x->node_event_tracker.desired_time.value;
    u64 xr = U(x->region_that_arrived_top), xs = U(x->reached_from_source), xo = x->observables_crossed_from_source, xa = (u64)x->radius_of_arrival;
    vc_snapshot();
    f->set_region_shrinking(*r);
    vc_check(shrinks(r->radius.data) && at(r->radius.data, t) == at(d, t), "the radius now shrinks and is unchanged at this moment");
    vc_check(G()->idx == 1 && G()->region == U(r) && (int64_t)G()->data == r->radius.data, "the shrink event is scheduled once, with the new radius");
    vc_check(!r->shell_area[gi]->node_event_tracker.has_desired_time, "no node of the region wants a wake-up");
    vc_check(G()->kids >= 1, "every child's wake-ups are withdrawn");
    vc_check(xd || !x->node_event_tracker.has_desired_time, "no wake-up is requested");
    vc_check(x->node_event_tracker.has_queued_time == xq && x->node_event_tracker.queued_time.value == xt && x->node_event_tracker.desired_time.value == xw, "outstanding events stay tracked");
    vc_check(U(x->region_that_arrived_top) == xr && U(x->reached_from_source) == xs && x->observables_crossed_from_source == xo && (u64)x->radius_of_arrival == xa, "ownership of nodes is unchanged");
    vc_cover("reach");
}
// ---------------------------------------------------------------- blossom nesting
#define TOPS(h, P)                                                                                                      \
    static inline bool h##_node(GraphFillRegion *r, GraphFillRegion *p, u64 gi) {                                       \
        DetectorNode *n = r->shell_area[gi];                                                                            \
        return U(n->region_that_arrived_top) == U(P);                                                                   \
    }                                                                                                                   \
    static inline bool h##_rad(GraphFillRegion *r, GraphFillRegion *p, u64 gi) {                                        \
        DetectorNode *n = r->shell_area[gi];                                                                            \
        return (u64)n->wrapped_radius_cached == vc_fn3(1, U(n->region_that_arrived), U(P), (u64)n->radius_of_arrival);   \
    }                                                                                                                   \
    VC bool h##__invTop(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc, u64 i) { return (gi >= i) | h##_node(r, p, gi); }  \
    VC bool h##__invTop2(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc) { return h##_node(r, p, gi); }         \
    VC bool h##__invRad(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc, u64 i) { return (gi >= i) | h##_rad(r, p, gi); }   \
    VC bool h##__invRad2(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc) { return h##_rad(r, p, gi); }          \
    VC bool h##__invKids(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc, u64 i) { return (gc >= i) | (G()->kids >= 1); } \
    VC bool h##__invCountKids(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc, u64 i) { return (G()->kids <= i) & (i <= (1ull << 62)); }
TOPS(c07_wrap_into_blossom, p)
static inline void nest(GraphFillRegion *r, u64 gi, u64 gc) {
    vc_assume(gi < r->shell_area.size());
    vc_assume(gc < r->blossom_children.size());
    G()->child = U(r->blossom_children[gc].region);
    G()->kids = 0;
}
VC void c07_wrap_into_blossom(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc) {
    nest(r, gi, gc);
    vc_assume(U(r) != U(p));
    int64_t d = r->radius.data;
    vc_snapshot();
    r->wrap_into_blossom(p);
    vc_check(U(r->blossom_parent) == U(p) && U(r->blossom_parent_top) == U(p), "the region is nested in the new blossom");
    vc_check(c07_wrap_into_blossom_node(r, p, gi), "every node's top region is the new blossom");
    vc_check(c07_wrap_into_blossom_rad(r, p, gi), "every node's wrapped radius is recomputed below the new top");
    vc_check(G()->kids >= 1, "every child is updated too");
    vc_check(r->radius.data == d, "the radius is unchanged");
    vc_cover("reach");
}
TOPS(c07_clear_parent, r)
VC void c07_clear_parent(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc) {
    nest(r, gi, gc);
    int64_t d = r->radius.data;
    vc_snapshot();
    r->clear_blossom_parent();
    vc_check(r->blossom_parent == nullptr && U(r->blossom_parent_top) == U(r), "the region is a top-level region");
    vc_check(c07_clear_parent_node(r, p, gi), "every node's top region is this region");
    vc_check(c07_clear_parent_rad(r, p, gi), "every node's wrapped radius is recomputed below the new top");
    vc_check(G()->kids >= 1, "every child is updated too");
    vc_check(r->radius.data == d, "the radius is unchanged");
    vc_cover("reach");
}
TOPS(c07_clear_parent_only, r)
VC void c07_clear_parent_only(GraphFillRegion *r, GraphFillRegion *p, u64 gi, u64 gc) {
    nest(r, gi, gc);
    int64_t d = r->radius.data;
    vc_snapshot();
    r->clear_blossom_parent_ignoring_wrapped_radius();
    vc_check(r->blossom_parent == nullptr && U(r->blossom_parent_top) == U(r), "the region is a top-level region");
    vc_check(c07_clear_parent_only_node(r, p, gi), "every node's top region is this region");
    vc_check(G()->kids >= 1, "every child is updated too");
    vc_check(r->radius.data == d, "the radius is unchanged");
    vc_cover("reach");
}
// ---------------------------------------------------------------- processing events
VC void c07_look(GraphFlooder *f, DetectorNode *n) {
    u64 i = G()->idx;
    int64_t t = G()->when, now = f->queue.cur_time;
    vc_assume((i == SIZE_MAX) == (t == INT64_MAX));
    vc_assume((i == SIZE_MAX) | (i < n->neighbors.size()));
    vc_assume(n->neighbor_observables.size() == n->neighbors.size());
    vc_assume((i == SIZE_MAX) | (i == 0) | (n->neighbors[i] != nullptr));
    vc_assume((now >= 0) & (now < (1ll << 58)));
    QueuedEventTracker *k = &n->node_event_tracker;
    bool hq = k->has_queued_time, hd = k->has_desired_time;
    uint32_t qt = k->queued_time.value;
    vc_assume(!hq | ((uint32_t)(t - qt) != 0x80000000u));
    vc_assume(!hq | ((uint32_t)(now - qt) != 0x80000000u));
    G()->n = 0;
    G()->calls = 0;
    vc_snapshot();
    vc_writes(&n->node_event_tracker, sizeof(QueuedEventTracker));
    MwpmEvent ev = f->do_look_at_node_event(*n);
    vc_check(G()->node2 == U(n), "the next interaction of this node is looked up");
    vc_check(i == SIZE_MAX || (k->has_desired_time && k->desired_time.value == (uint32_t)t), "the node is looked at again when its next interaction is due");
    vc_check(i == SIZE_MAX || (k->has_queued_time && (int32_t)((uint32_t)t - k->queued_time.value) >= 0), "an event is outstanding no later than that");
    vc_check(i != SIZE_MAX || (k->has_desired_time == hd && k->has_queued_time == hq && G()->n == 0), "nothing is requested without an interaction");
    vc_check(G()->n == 0 || (G()->data == U(n) && G()->time == (uint32_t)t && G()->type == LOOK_AT_NODE), "the queued event is this node at that time");
    bool due = i != SIZE_MAX && t == now;
    bool b = due && n->neighbors[i] == nullptr;
    vc_check(G()->calls == (due && !b ? 1 : 0), "the neighbour interaction happens exactly when it is due");
    vc_check(!due || b || (G()->node == U(n) && G()->k == i && G()->region == U(n->neighbors[i])), "the interaction is along the edge found");
    vc_check(!due || b || (ev.event_type == REGION_HIT_REGION && U(ev.region_hit_region_event_data.region1) == 1 && ev.region_hit_region_event_data.edge.obs_mask == 77), "its notification is passed on");
    vc_check(!b || (ev.event_type == REGION_HIT_BOUNDARY && U(ev.region_hit_boundary_event_data.region) == U(n->region_that_arrived_top)), "reaching the boundary is reported");
    vc_check(due || ev.event_type == NO_EVENT, "nothing is reported before it is due");
    vc_frame("do_look_at_node_event");
    vc_cover("reach");
}
VC void c07_decision(GraphFlooder *f, u64 data, uint32_t time, uint8_t type) {
    vc_assume(type == NO_FLOOD_CHECK_EVENT || type == LOOK_AT_NODE || type == LOOK_AT_SHRINKING_REGION);
    FloodCheckEvent ev((DetectorNode *)data, cyclic_time_int(time));
    ev.tentative_event_type = (FloodCheckEventType)type;
    DetectorNode *n = (DetectorNode *)data;
    GraphFillRegion *r = (GraphFillRegion *)data;
    bool nq = n->node_event_tracker.has_queued_time, nd = n->node_event_tracker.has_desired_time;
    bool rq = r->shrink_event_tracker.has_queued_time, rd = r->shrink_event_tracker.has_desired_time;
    uint32_t nqt = n->node_event_tracker.queued_time.value, ndt = n->node_event_tracker.desired_time.value;
    uint32_t rqt = r->shrink_event_tracker.queued_time.value, rdt = r->shrink_event_tracker.desired_time.value;
    vc_snapshot();
    if (type == LOOK_AT_NODE)
        vc_writes(&n->node_event_tracker, sizeof(QueuedEventTracker));
    if (type == LOOK_AT_SHRINKING_REGION)
        vc_writes(&r->shrink_event_tracker, sizeof(QueuedEventTracker));
    bool ok = f->dequeue_decision(ev);
    if (type == LOOK_AT_NODE)
        vc_check(ok == (nq && nqt == time && nd && ndt == time), "a node's event is approved exactly by the node's own tracker");
    else if (type == LOOK_AT_SHRINKING_REGION)
        vc_check(ok == (rq && rqt == time && rd && rdt == time), "a region's event is approved exactly by the region's own tracker");
    else
        vc_check(ok, "the end of the queue is always passed on");
    vc_frame("dequeue_decision");
    vc_cover("reach");
}
VC bool c07_dequeue_valid__invNone(GraphFlooder *f) { return true; }
VC void c07_dequeue_valid(GraphFlooder *f) {
    vc_snapshot();
    FloodCheckEvent ev = f->dequeue_valid();
    vc_check(G()->k == 1, "only an approved event is acted on");
    vc_check((U(ev.data_look_at_node) == G()->data) & (ev.time.value == G()->time) & ((uint8_t)ev.tentative_event_type == G()->type), "the approved event is passed on unchanged");
    vc_frame("dequeue_valid");
    vc_cover("reach");
}
VC bool c07_run__invPending(GraphFlooder *f) { return G()->pending == 0; }
VC void c07_run(GraphFlooder *f) {
    G()->pending = 0;
    vc_snapshot();
    MwpmEvent ev = f->run_until_next_mwpm_notification();
    vc_check((G()->pending == 1) == (G()->type == NO_FLOOD_CHECK_EVENT), "it stops without acting only when no event is left");
    vc_check(G()->pending == 0 || ev.event_type == NO_EVENT, "nothing is reported when no event is left");
    vc_check(G()->pending == 1 || (ev.event_type != NO_EVENT && (uint8_t)ev.event_type == G()->node2 && U(ev.blossom_shatter_event_data.blossom_region) == G()->region), "the notification is passed on unchanged");
    vc_frame("run_until_next_mwpm_notification");
    vc_cover("reach");
}
