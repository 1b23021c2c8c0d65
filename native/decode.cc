// Step-by-step decoding with the algorithm's invariants evaluated at every matcher event, and the final
// answer compared with an independent optimum (shortest paths + subset DP, and LP duality).
// CAT (a define) selects what is asserted, so that each property judges its own statement.
#include "common.h"
#include <array>
#include "pymatching/sparse_blossom/matcher/mwpm.h"
using namespace pm;
#ifndef CAT
#define CAT 0
#endif
enum { OPT = 1, NEXT = 2, REGION = 4, TREE = 8, MATCH = 16, RESET = 32 };
static bool on(int c) { return (CAT & c) != 0; }
#define NEED(cat, cond, msg) do { if (on(cat) && !(cond)) fail(msg); } while (0)

struct Sim {
    const Gr &g;
    Oracle &O;
    Mwpm &m;
    std::vector<int> ev;
    Sim(const Gr &g, Oracle &O, Mwpm &m, std::vector<int> ev) : g(g), O(O), m(m), ev(ev) {}
    int id(const DetectorNode *n) const { return n ? (int)(n - &m.flooder.graph.nodes[0]) : -1; }
    bool valid(const DetectorNode *n) const {
        int64_t k = n - &m.flooder.graph.nodes[0];
        return k >= 0 && k < g.n;
    }
    int64_t T() const { return m.flooder.queue.cur_time; }
    int64_t rad(const GraphFillRegion *r) const { return r->radius.get_distance_at_time(T()); }
    std::set<GraphFillRegion *> live;
    std::set<AltTreeNode *> liveT;
    void collect() {
        live.clear();
        liveT.clear();
        for (auto p : m.flooder.region_arena.allocated) live.insert(p);
        for (auto p : m.flooder.region_arena.available) live.erase(p);
        for (auto p : m.node_arena.allocated) liveT.insert(p);
        for (auto p : m.node_arena.available) liveT.erase(p);
    }
    GraphFillRegion *top(GraphFillRegion *r) const {
        int k = 0;
        while (r && r->blossom_parent && k++ < 10000) r = r->blossom_parent;
        return r;
    }
    bool under(const GraphFillRegion *a, const GraphFillRegion *b) const {   // b encloses or equals a
        for (int k = 0; a && k < 10000; k++) {
            if (a == b) return true;
            a = a->blossom_parent;
        }
        return false;
    }
    // radius reached around source s by all regions enclosing it, up to but excluding `stop`
    int64_t reach(const DetectorNode *s, const GraphFillRegion *stop) const {
        int64_t t = 0;
        for (auto r = s->region_that_arrived; r && r != stop; r = r->blossom_parent) t += rad(r);
        return t;
    }
    bool source_in(const DetectorNode *s, const GraphFillRegion *r) const {
        return s && valid(s) && s->reached_from_source == s && s->region_that_arrived && under(s->region_that_arrived, r);
    }
    // `e` joins a source inside a with a source inside b (b null: boundary) along a tight path with the right parity
    void tight_edge(int cat, const CompressedEdge &e, GraphFillRegion *a, GraphFillRegion *b, GraphFillRegion *stop, const char *what) const {
        if (!on(cat)) return;
        std::string w = what;
        if (!source_in(e.loc_from, a)) fail(w + ": edge does not start at a detection event of its region");
        if (b) {
            if (!source_in(e.loc_to, b)) fail(w + ": edge does not end at a detection event of its region");
        } else if (e.loc_to)
            fail(w + ": boundary edge has an end");
        int u = id(e.loc_from), v = id(e.loc_to);
        int64_t len = reach(e.loc_from, stop) + (b ? reach(e.loc_to, stop) : 0);
        if (len != O.D(u, v)) fail(w + ": edge is not tight (radii do not add up to the shortest distance)");
        if (g.nobs <= 64 && !O.tight(u, v, g.comp64(e.obs_mask))) fail(w + ": observables of the edge are not those of a shortest path");
    }
    void nodes() {
        if (!on(REGION)) return;
        std::map<DetectorNode *, GraphFillRegion *> owner;
        for (auto r : live)
            for (auto n : r->shell_area) {
                if (!valid(n)) fail("region shell names a node outside the graph");
                if (owner.count(n)) fail("node is in the shell of two regions (or twice)");
                owner[n] = r;
            }
        for (auto &n : m.flooder.graph.nodes) {
            if (!n.region_that_arrived) {
                if (owner.count(&n)) fail("unowned node is in a shell");
                if (n.region_that_arrived_top || n.reached_from_source || n.observables_crossed_from_source || n.radius_of_arrival || n.wrapped_radius_cached)
                    fail("unowned node " + std::to_string(id(&n)) + " keeps data of an earlier owner");
                continue;
            }
            auto r = n.region_that_arrived;
            if (!live.count(r)) fail("node is owned by a released region");
            if (owner.count(&n) == 0 || owner[&n] != r) fail("owned node is not in its region's shell");
            if (n.region_that_arrived_top != top(r)) fail("node's top region is not the outermost enclosing region");
            int64_t wr = 0;
            for (auto x = r; x != top(r); x = x->blossom_parent) wr += rad(x);
            if (n.wrapped_radius_cached != wr - n.radius_of_arrival) fail("cached wrapped radius is wrong");
            auto lr = n.local_radius();
            if (lr.get_distance_at_time(T()) != wr + rad(top(r)) - n.radius_of_arrival) fail("local radius is not the growth since arrival");
            if (lr.get_distance_at_time(T()) < 0) fail("negative local radius");
            auto s = n.reached_from_source;
            if (!source_in(s, r)) fail("node's source is not a detection event of its region");
            auto dist = [&](const DetectorNode *x) {
                int64_t t = x->radius_of_arrival;
                for (auto y = s->region_that_arrived; y != x->region_that_arrived; y = y->blossom_parent) t += rad(y);
                return t;
            };
            if (s == &n) {
                if (n.radius_of_arrival != 0 || n.observables_crossed_from_source != 0) fail("detection event has a non-zero distance from itself");
            } else {
                bool ok = false;
                for (auto &e : g.es) {
                    int me = id(&n);
                    int o = e.u == me ? e.v : e.v == me ? e.u : -1;
                    if (o < 0) continue;
                    auto &q = m.flooder.graph.nodes[o];
                    if (q.reached_from_source != s || !under(q.region_that_arrived, r)) continue;
                    uint64_t em = 0;
                    for (auto x : e.obs)
                        if (g.nobs <= 64) em ^= 1ull << x;
                    if (dist(&q) + e.w == dist(&n) && (q.observables_crossed_from_source ^ em) == n.observables_crossed_from_source) ok = true;
                }
                if (!ok) fail("node " + std::to_string(id(&n)) + " does not record the path it was reached by (distance or observables)");
            }
        }
    }
    void regions() {
        for (auto r : live) {
            if (on(REGION)) {
                if (rad(r) < 0) fail("negative radius");
                if (r->blossom_parent_top != top(r)) fail("region's top is not the outermost enclosing region");
                for (auto &c : r->blossom_children)
                    if (!live.count(c.region) || c.region->blossom_parent != r) fail("blossom child does not point to its blossom");
                if (r->blossom_parent) {
                    int k = 0;
                    if (!live.count(r->blossom_parent)) fail("region inside a released blossom");
                    for (auto &c : r->blossom_parent->blossom_children) k += c.region == r;
                    if (k != 1) fail("region is not exactly once among its blossom's children");
                    if (!r->radius.is_frozen()) fail("region inside a blossom is not frozen");
                }
            }
            if (!r->blossom_children.empty() && on(MATCH)) {
                size_t k = r->blossom_children.size();
                if (k % 2 == 0 || k < 3) fail("blossom cycle is not odd");
                for (size_t i = 0; i < k; i++)
                    tight_edge(MATCH, r->blossom_children[i].edge, r->blossom_children[i].region, r->blossom_children[(i + 1) % k].region, r, "blossom cycle");
            }
            if (on(MATCH)) {
                if (r->blossom_parent) {
                    if (r->alt_tree_node) fail("region inside a blossom is also in a tree");
                } else if (r->alt_tree_node) {
                    if (!liveT.count(r->alt_tree_node)) fail("region points to a released tree node");
                    bool outer = r->alt_tree_node->outer_region == r, inner = r->alt_tree_node->inner_region == r;
                    if (outer == inner) fail("region is not exactly one of inner/outer in its tree node");
                    if (outer && !r->radius.is_growing()) fail("outer region is not growing");
                    if (inner && !r->radius.is_shrinking()) fail("inner region is not shrinking");
                } else {
                    if (!r->radius.is_frozen()) fail("matched region is not frozen");
                    auto o = r->match.region;
                    if (o) {
                        if (!live.count(o) || o == r || o->match.region != r) fail("match is not mutual");
                        if (o->match.edge != r->match.edge.reversed()) fail("match edges are not each other's reverse");
                    }
                    tight_edge(MATCH, r->match.edge, r, o, nullptr, "match");
                }
            }
        }
    }
    void trees() {
        for (auto t : liveT) {
            if (on(TREE) || on(MATCH)) {
                if (!t->outer_region || !live.count(t->outer_region)) fail("tree node without an outer region");
                if (t->outer_region->alt_tree_node != t) fail("outer region does not point back to its tree node");
                bool root = !t->parent.alt_tree_node;
                if (root != !t->inner_region) fail("exactly the root has no inner region");
                if (t->visited) fail("visited mark left behind");
                if (!root) {
                    if (t->inner_region->alt_tree_node != t) fail("inner region does not point back to its tree node");
                    auto p = t->parent.alt_tree_node;
                    if (!liveT.count(p)) fail("parent tree node was released");
                    int k = 0;
                    for (auto &c : p->children)
                        if (c.alt_tree_node == t) {
                            k++;
                            if (c.edge != t->parent.edge.reversed()) fail("parent and child edges are not reverse of each other");
                        }
                    if (k != 1) fail("tree node is not exactly once among its parent's children");
                    tight_edge(MATCH, t->inner_to_outer_edge, t->inner_region, t->outer_region, nullptr, "inner-outer edge");
                    tight_edge(MATCH, t->parent.edge, t->inner_region, p->outer_region, nullptr, "parent edge");
                }
                for (auto &c : t->children)
                    if (!liveT.count(c.alt_tree_node) || c.alt_tree_node->parent.alt_tree_node != t) fail("child does not point to its parent");
                int k = 0;
                auto x = t;
                while (x->parent.alt_tree_node && k++ < 100000) x = x->parent.alt_tree_node;
                if (k >= 100000) fail("tree contains a cycle");
            }
        }
    }
    void dual() {   // radii never overlap: sum of radii separating two detection events <= their distance
        if (!on(OPT)) return;
        for (int u : ev) {
            auto &a = m.flooder.graph.nodes[u];
            if (!a.region_that_arrived) fail("a detection event lost its region");
            if (reach(&a, nullptr) > O.D(u, -1)) fail("radii overshoot the boundary");
            for (int v : ev) {
                if (v <= u) continue;
                auto &b = m.flooder.graph.nodes[v];
                GraphFillRegion *l = a.region_that_arrived;
                while (l && !under(b.region_that_arrived, l)) l = l->blossom_parent;
                if (reach(&a, l) + reach(&b, l) > O.D(u, v)) fail("radii of two detection events overlap");
            }
        }
    }
    void wakeups() {   // every possible collision has a wake-up no later than it, at one of its ends
        if (!on(NEXT)) return;
        for (auto &e : g.es) {
            auto &a = m.flooder.graph.nodes[e.u];
            auto ra = a.local_radius();
            int64_t t;
            auto want = [&](DetectorNode &n) { return n.node_event_tracker.has_desired_time; };
            auto when = [&](DetectorNode &n) { return n.node_event_tracker.desired_time.widen_from_nearby_reference(T()); };
            if (e.v < 0) {
                if (!ra.is_growing()) continue;
                t = e.w - ra.y_intercept();
                if (t >= T() && !(want(a) && when(a) <= t)) fail("a region will reach the boundary but no wake-up is pending");
                continue;
            }
            auto &b = m.flooder.graph.nodes[e.v];
            if (a.region_that_arrived_top == b.region_that_arrived_top) continue;
            auto rb = b.local_radius();
            int gr = (ra.is_growing() ? 1 : ra.is_shrinking() ? -1 : 0) + (rb.is_growing() ? 1 : rb.is_shrinking() ? -1 : 0);
            if (gr <= 0) continue;
            t = (e.w - ra.y_intercept() - rb.y_intercept()) / gr;
            if (t < T()) continue;
            if (!(want(a) && when(a) <= t) && !(want(b) && when(b) <= t)) fail("two regions will collide but no wake-up is pending");
        }
        for (auto &n : m.flooder.graph.nodes) {
            auto ln = n.local_radius();
            if (ln.is_shrinking()) {
                if (n.node_event_tracker.has_desired_time) fail("a shrinking region's node has a pending wake-up");
                continue;
            }
            auto x = m.flooder.find_next_event_at_node_returning_neighbor_index_and_time(n);
            int64_t best = INT64_MAX;
            size_t cnt = n.neighbors.size();
            std::vector<int64_t> ts(cnt, INT64_MAX);
            for (size_t i = 0; i < cnt; i++) {
                auto q = n.neighbors[i];
                if (!q) {
                    if (ln.is_growing()) ts[i] = (int64_t)n.neighbor_weights[i] - ln.y_intercept();
                } else {
                    if (q->region_that_arrived_top == n.region_that_arrived_top) continue;
                    auto lq = q->local_radius();
                    int gr = (int)ln.is_growing() + (int)lq.is_growing();
                    if (lq.is_shrinking() || gr == 0) continue;
                    ts[i] = ((int64_t)n.neighbor_weights[i] - ln.y_intercept() - lq.y_intercept()) / gr;
                }
                best = std::min(best, ts[i]);
            }
            if (x.second != best) fail("next interaction time at node " + std::to_string(id(&n)) + " is not the earliest");
            if ((x.first == SIZE_MAX) != (best == INT64_MAX)) fail("next interaction reported although there is none (or the reverse)");
            if (x.first != SIZE_MAX && (x.first >= cnt || ts[x.first] != best)) fail("next interaction names the wrong neighbour");
        }
    }
    void event(const MwpmEvent &e) {
        if (!on(REGION)) return;
        collect();
        if (e.event_type == REGION_HIT_REGION) {
            auto &d = e.region_hit_region_event_data;
            if (!live.count(d.region1) || !live.count(d.region2) || d.region1->blossom_parent || d.region2->blossom_parent) fail("collision does not name top-level regions");
            if (d.region1 == d.region2) fail("collision of a region with itself");
            if (!d.region1->alt_tree_node && !d.region2->alt_tree_node) fail("collision of two matched regions");
            tight_edge(REGION, d.edge, d.region1, d.region2, nullptr, "collision");
            stats["collisions"]++;
        } else if (e.event_type == REGION_HIT_BOUNDARY) {
            auto &d = e.region_hit_boundary_event_data;
            if (!live.count(d.region) || d.region->blossom_parent) fail("boundary hit does not name a top-level region");
            tight_edge(REGION, d.edge, d.region, nullptr, nullptr, "boundary hit");
            stats["boundary_hits"]++;
        } else if (e.event_type == BLOSSOM_SHATTER) {
            auto &d = e.blossom_shatter_event_data;
            stats["shatters"]++;
            if (!live.count(d.blossom_region) || d.blossom_region->blossom_parent || !d.blossom_region->shell_area.empty() || rad(d.blossom_region) != 0)
                fail("shatter of a region that has not shrunk to nothing");
            auto t = d.blossom_region->alt_tree_node;
            if (!t || t->inner_region != d.blossom_region) fail("shatter of a region that is not an inner region");
            auto pick = [&](const DetectorNode *n) {
                for (auto &c : d.blossom_region->blossom_children)
                    if (under(n->region_that_arrived, c.region)) return c.region;
                return (GraphFillRegion *)nullptr;
            };
            if (d.in_parent_region != pick(t->parent.edge.loc_from)) fail("shatter names the wrong child on the parent side");
            if (d.in_child_region != pick(t->inner_to_outer_edge.loc_from)) fail("shatter names the wrong child on the child side");
        }
    }
    void all() {
        collect();
        nodes();
        regions();
        trees();
        dual();
        wakeups();
    }
};

static void pristine(Mwpm &m, const Gr &g, const char *when) {
    if (!on(RESET)) return;
    std::string w = when;
    for (auto &n : m.flooder.graph.nodes) {
        if (n.region_that_arrived || n.region_that_arrived_top || n.reached_from_source || n.observables_crossed_from_source || n.radius_of_arrival || n.wrapped_radius_cached)
            fail(w + ": a node keeps its owner, source, observables or radius");
        if (n.node_event_tracker.has_desired_time || n.node_event_tracker.has_queued_time) fail(w + ": a node keeps a pending wake-up");
    }
    if (!m.flooder.queue.empty()) fail(w + ": the queue is not empty");
    for (auto &b : m.flooder.queue.bit_buckets)
        if (!b.empty()) fail(w + ": the queue still holds events");
    if (m.flooder.region_arena.allocated.size() != m.flooder.region_arena.available.size()) fail(w + ": a region is still in use");
    if (m.node_arena.allocated.size() != m.node_arena.available.size()) fail(w + ": a tree node is still in use");
    std::set<void *> s;
    for (auto p : m.flooder.region_arena.available)
        if (!s.insert(p).second) fail(w + ": a region was returned twice");
    for (auto p : m.node_arena.available)
        if (!s.insert(p).second) fail(w + ": a tree node was returned twice");
}
static void same_graph(Mwpm &m, Mwpm &f, const char *when) {
    if (!on(RESET)) return;
    for (size_t i = 0; i < f.flooder.graph.nodes.size(); i++) {
        auto &a = m.flooder.graph.nodes[i], &b = f.flooder.graph.nodes[i];
        bool ok = a.neighbor_weights == b.neighbor_weights && a.neighbor_observables == b.neighbor_observables && a.neighbors.size() == b.neighbors.size();
        for (size_t k = 0; ok && k < a.neighbors.size(); k++)
            ok = (a.neighbors[k] ? a.neighbors[k] - &m.flooder.graph.nodes[0] : -1) == (b.neighbors[k] ? b.neighbors[k] - &f.flooder.graph.nodes[0] : -1);
        if (!ok) fail(std::string(when) + ": stored edges changed");
    }
}

static Mwpm build(const Gr &g) {
    MatchingGraph mg(g.n, g.nobs);
    for (auto &e : g.es)
        if (e.v < 0) mg.add_boundary_edge(e.u, e.w, e.obs);
        else mg.add_edge(e.u, e.v, e.w, e.obs);
    return Mwpm(GraphFlooder(std::move(mg)));
}
struct Res {
    int64_t w = 0;
    uint64_t mask = 0;
    bool ok = true;
};
static void feed(Mwpm &m, const std::vector<int> &ev) {
    m.flooder.queue.cur_time = 0;
    for (int e : ev) m.create_detection_event(&m.flooder.graph.nodes[e]);
}
// returns false when no perfect matching exists (after resetting)
static bool flood(const Gr &g, Oracle &O, Mwpm &m, const std::vector<int> &ev, int stop_after, bool validate) {
    feed(m, ev);
    Sim s(g, O, m, ev);
    int k = 0;
    if (validate) s.all();
    while (true) {
        if (k == stop_after) return false;
        auto e = m.flooder.run_until_next_mwpm_notification();
        if (e.event_type == NO_EVENT) break;
        if (validate) s.event(e);
        m.process_event(e);
        k++;
        if (validate) s.all();
        if (k > 200000) fail("decoding does not terminate");
    }
    if (validate) {
        stats["events"] += k;
        for (auto r : s.live) {
            if (!r->blossom_children.empty()) stats["final_blossoms"]++;
            if (r->blossom_parent && !r->blossom_children.empty()) stats["nested_blossoms"]++;
        }
    }
    return m.node_arena.allocated.size() == m.node_arena.available.size();
}
static Res finish_mask(Mwpm &m, const std::vector<int> &ev) {
    Res r;
    MatchingResult res;
    for (int e : ev)
        if (m.flooder.graph.nodes[e].region_that_arrived) res += m.shatter_blossom_and_extract_matches(m.flooder.graph.nodes[e].region_that_arrived_top);
    r.w = res.weight;
    r.mask = res.obs_mask;
    return r;
}
static std::vector<CompressedEdge> finish_edges(Mwpm &m, const std::vector<int> &ev) {
    std::vector<CompressedEdge> out;
    for (int e : ev)
        if (m.flooder.graph.nodes[e].region_that_arrived) m.shatter_blossom_and_extract_match_edges(m.flooder.graph.nodes[e].region_that_arrived_top, out);
    return out;
}

int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        Gr g = gen_graph(r, r.pick({4, 7, 9, 12, 20, 45}));
        bool chain = r.chance(1, 150);
        if (chain) {   // long paths of heavy edges: distances beyond 32 bits
            g = Gr();
            g.n = r.range(130, 220);
            for (int i = 0; i + 1 < g.n; i++) g.es.push_back({i, i + 1, 2 * r.range((1 << 24) - 40, (1 << 24) - 1), {}});
            if (r.chance(30)) g.es.push_back({(int)r.below(g.n), -1, 2 * r.range(0, (1 << 24) - 1), {}});
        }
        Oracle O(g);
        set_case(g.str());
        Mwpm m = build(g);
        Mwpm fresh = build(g);
        int rounds = r.range(1, 4);
        for (int q = 0; q < rounds; q++) {
            std::vector<int> ev;
            int p = r.pick({20, 50, 80, 100});
            size_t evcap = r.chance(30) ? 40 : 12;
            for (int i = 0; i < g.n; i++)
                if (!chain && r.chance(p) && ev.size() < evcap) ev.push_back(i);
            if (chain) {
                ev = {0, g.n - 1};
                if (r.chance(30)) ev = {0, g.n / 2, g.n / 2 + 1, g.n - 1};
                if (r.chance(10)) ev = {(int)r.below(g.n)};
            }
            for (size_t i = ev.size(); i > 1; i--) std::swap(ev[i - 1], ev[r.below(i)]);
            int stop = r.chance(15) ? r.below(8) : -1;
            std::stringstream ss;
            ss << "decode";
            for (int e : ev) ss << " " << e;
            if (stop >= 0) ss << "  (reset after " << stop << " matcher events)";
            ss << "\n";
            add_case(ss.str());
            n_cases++;
            if (ev.size() >= 3) n_nontrivial++;
            // up to 12 events: independent optimum by dynamic programming; beyond that the optimum is the sum of
            // all radii, which the invariants checked at every step show to be a feasible dual solution
            bool dp = ev.size() <= 12;
            int64_t best = INF;
            unsigned masks = ~0u;
            if (dp) std::tie(best, masks) = O.match(ev);
            if (on(RESET)) {
                pristine(m, g, "before decoding");
                same_graph(m, fresh, "before decoding");
            }
            bool ok = flood(g, O, m, ev, stop, true);
            if (stop >= 0) {
                m.reset();
                pristine(m, g, "after a reset in the middle of a decode");
                same_graph(m, fresh, "after a reset");
                continue;
            }
            if (!dp && ok) {
                Sim t(g, O, m, ev);
                t.collect();
                best = 0;
                for (auto x : t.live) best += t.rad(x);
                stats["dual_certified"]++;
            }
            NEED(OPT, !dp || ok == (best < INF), ok ? "a matching was reported although none exists" : "no matching was found although one exists");
            if (!ok) {
                m.reset();
                pristine(m, g, "after a failed decode");
                continue;
            }
            bool edges = r.chance(50);
            if (!edges) {
                Res a = finish_mask(m, ev);
                NEED(OPT, a.w == best, "weight " + std::to_string(a.w) + " is not the minimum " + std::to_string(best));
                NEED(OPT, g.nobs > 64 || (g.comp64(a.mask) >= 0 && (masks >> g.comp64(a.mask) & 1)), "observables are not those of any minimum-weight matching");
                NEED(MATCH, a.w == best, "extracted weight is not the sum over the matching");
                pristine(m, g, "after extracting the result");
                if (on(OPT) || on(MATCH)) {   // the matched pairs for the same input agree with the result
                    flood(g, O, m, ev, -1, false);
                    auto ce = finish_edges(m, ev);
                    int64_t w = 0;
                    uint64_t mk = 0;
                    for (auto &c : ce) {
                        w += O.D(c.loc_from - &m.flooder.graph.nodes[0], c.loc_to ? (int)(c.loc_to - &m.flooder.graph.nodes[0]) : -1);
                        mk ^= c.obs_mask;
                    }
                    if (w != a.w) fail("matched pairs have a different total weight from the result");
                    if (mk != a.mask) fail("matched pairs have different observables from the result");
                }
                if (on(RESET)) {
                    Mwpm f2 = build(g);
                    flood(g, O, f2, ev, -1, false);
                    Res b = finish_mask(f2, ev);
                    if (a.w != b.w || a.mask != b.mask) fail("a used decoder and a new one disagree");
                }
            } else {
                auto ce = finish_edges(m, ev);
                std::map<int, int> seen;
                int64_t w = 0;
                unsigned mk = 0;
                for (auto &c : ce) {
                    int u = c.loc_from - &m.flooder.graph.nodes[0], v = c.loc_to ? (int)(c.loc_to - &m.flooder.graph.nodes[0]) : -1;
                    seen[u]++;
                    if (v >= 0) seen[v]++;
                    w += O.D(u, v);
                    int k = g.nobs <= 64 ? g.comp64(c.obs_mask) : 0;
                    if (on(OPT) || on(MATCH)) {
                        if (k < 0 || (g.nobs <= 64 && !O.tight(u, v, k))) fail("a matched pair carries the wrong observables");
                    }
                    mk ^= k;
                }
                if (on(OPT) || on(MATCH)) {
                    for (int e : ev)
                        if (seen[e] != 1) fail("detection event " + std::to_string(e) + " is matched " + std::to_string(seen[e]) + " times");
                    if (seen.size() != ev.size()) fail("a node that is not a detection event is matched");
                    if (w != best) fail("matched pairs have weight " + std::to_string(w) + ", not the minimum " + std::to_string(best));
                    if (g.nobs <= 64 && !(masks >> mk & 1)) fail("matched pairs' observables are not those of a minimum-weight matching");
                }
                pristine(m, g, "after extracting the matched pairs");
            }
            same_graph(m, fresh, "after a decode");
        }
    }
    return run.done();
}
