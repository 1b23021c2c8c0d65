// C06: the next interaction at a node, its rescheduling and the node event, for random neighbourhoods.
#include "common.h"
#include <array>
#include "pymatching/sparse_blossom/flooder/graph_flooder.h"
using namespace pm;
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        int deg = r.pick({0, 1, 2, 3, 5, 9});
        bool bnd = r.chance(40);
        GraphFlooder f(MatchingGraph(deg + 1, 64));
        auto &nodes = f.graph.nodes;
        int64_t T = r.pick<int64_t>({0, 2, 100, 1000, (1ll << 31) - 2, (1ll << 32) - 6, (1ll << 34)});
        f.queue.cur_time = T;
        std::vector<GraphFillRegion> regs(4);
        std::vector<int> dir(4);
        int64_t wscale = r.pick<int64_t>({3, 20, 1000, (1 << 24) - 1});
        std::stringstream s;
        s << "time " << T << " degree " << deg << " boundary " << bnd << "\n";
        for (int k = 0; k < 4; k++) {
            dir[k] = (int)r.below(3) - 1;
            int64_t rad = 2 * r.below(1 + std::min<int64_t>(T / 2, 3 * wscale));
            if (dir[k] > 0) regs[k].radius = VaryingCT::growing_value_at_time(rad, T);
            if (dir[k] < 0) regs[k].radius = VaryingCT::shrinking_value_at_time(rad, T);
            if (dir[k] == 0) regs[k].radius = VaryingCT::frozen(rad);
            s << "region " << k << " direction " << dir[k] << " radius " << rad << "\n";
        }
        std::vector<int> own(deg + 1);
        std::vector<int64_t> loc(deg + 1, 0);
        for (int i = 0; i <= deg; i++) {
            own[i] = (int)r.below(5) - 1;
            auto &n = nodes[i];
            if (own[i] >= 0) {
                auto &g = regs[own[i]];
                int64_t rv = g.radius.get_distance_at_time(T);
                loc[i] = 2 * r.below(1 + wscale);
                n.region_that_arrived = n.region_that_arrived_top = &g;
                n.reached_from_source = &n;
                n.wrapped_radius_cached = loc[i] - rv;
                n.radius_of_arrival = 0;
                n.observables_crossed_from_source = r.next();
            }
            s << "node " << i << " region " << own[i] << " local radius " << loc[i] << "\n";
        }
        bool zero_gap = r.chance(30);
        if (bnd) f.graph.add_boundary_edge(0, loc[0] + 2 * r.below(wscale + 1) * (zero_gap ? r.below(2) : 1), {3});
        for (int i = 1; i <= deg; i++) {
            int64_t gap = 2 * (int64_t)r.below(wscale + 1) * (zero_gap ? r.below(2) : 1);
            f.graph.add_edge(0, i, loc[0] + (own[i] == own[0] ? 0 : loc[i]) + gap, {(size_t)i});
        }
        auto &n0 = nodes[0];
        auto dirof = [&](int i) { return own[i] < 0 ? 0 : dir[own[i]]; };
        int64_t best = INT64_MAX;
        std::vector<int64_t> ts(n0.neighbors.size(), INT64_MAX);
        for (size_t k = 0; k < n0.neighbors.size(); k++) {
            int64_t w = n0.neighbor_weights[k];
            if (!n0.neighbors[k]) {
                if (dirof(0) > 0) ts[k] = T + w - loc[0];
            } else {
                int i = n0.neighbors[k] - &nodes[0];
                if (own[i] == own[0] && own[0] >= 0) continue;
                int sum = dirof(0) + dirof(i);
                if (dirof(i) < 0 || dirof(0) < 0 || sum <= 0) continue;
                ts[k] = T + (w - loc[0] - loc[i]) / sum;
            }
            best = std::min(best, ts[k]);
            s << "edge to neighbour " << k << " collides at " << ts[k] << "\n";
        }
        set_case(s.str());
        n_cases++;
        if (deg >= 2) n_nontrivial++;
        if (dirof(0) < 0) continue;   // nodes of shrinking regions are never asked
        auto x = f.find_next_event_at_node_returning_neighbor_index_and_time(n0);
        if (x.second != best) fail("next interaction at time " + std::to_string(x.second) + ", expected " + std::to_string(best));
        if (best == INT64_MAX ? x.first != SIZE_MAX : (x.first >= ts.size() || ts[x.first] != best)) fail("next interaction names the wrong neighbour");
        if (r.chance(30)) n0.node_event_tracker.set_desired_event({&n0, cyclic_time_int{T + (int64_t)r.below(4)}}, f.queue);
        if (r.chance(60)) {
            add_case("reschedule\n");
            f.reschedule_events_at_detector_node(n0);
            auto &k = n0.node_event_tracker;
            if (k.has_desired_time != (best != INT64_MAX)) fail("a wake-up is pending exactly when there is an interaction: violated");
            if (best != INT64_MAX && k.desired_time.value != (uint32_t)best) fail("the wake-up does not carry the interaction's time");
            if (best != INT64_MAX) {
                bool ok = false;
                auto q = f.queue;
                while (!q.empty()) {
                    auto e = q.dequeue();
                    if (e.data_look_at_node == &n0 && e.tentative_event_type == LOOK_AT_NODE && q.cur_time <= best) ok = true;
                }
                if (!ok) fail("no event is queued for the wake-up");
            }
        } else {
            add_case("node event\n");
            n0.node_event_tracker.clear();
            f.queue.clear();
            auto before = own;
            auto ob = n0.observables_crossed_from_source;
            auto e = f.do_look_at_node_event(n0);
            auto &k = n0.node_event_tracker;
            if (best == INT64_MAX) {
                if (k.has_desired_time || e.event_type != NO_EVENT) fail("a node event without an interaction did something");
            } else if (best > T) {
                if (e.event_type != NO_EVENT) fail("an interaction was reported before its time");
                if (!k.has_desired_time || k.desired_time.value != (uint32_t)best) fail("the node is not revisited at its next interaction");
            } else {
                auto nb = n0.neighbors[x.first];
                if (!k.has_desired_time || k.desired_time.value != (uint32_t)T) {
                    // arriving at the node itself reschedules it to its own next interaction
                    if (own[0] >= 0) fail("the node is not revisited immediately after an interaction");
                }
                if (!nb) {
                    if (e.event_type != REGION_HIT_BOUNDARY || e.region_hit_boundary_event_data.region != &regs[own[0]]) fail("boundary interaction not reported");
                    if (e.region_hit_boundary_event_data.edge.obs_mask != (ob ^ n0.neighbor_observables[0])) fail("boundary interaction has the wrong observables");
                } else {
                    int i = nb - &nodes[0];
                    if (own[0] >= 0 && own[i] >= 0) {
                        if (e.event_type != REGION_HIT_REGION) fail("collision not reported");
                    } else {
                        if (e.event_type != NO_EVENT) fail("growth into an empty node reported as an event");
                        int to = own[0] < 0 ? 0 : i, from = own[0] < 0 ? i : 0;
                        if (nodes[to].region_that_arrived != &regs[own[from]]) fail("region did not arrive at the empty node");
                    }
                }
            }
        }
    }
    return run.done();
}
