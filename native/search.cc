// C12: sequences of shortest-path searches against an exact oracle.
#include "common.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
using namespace pm;
static void idle(SearchFlooder &f, const char *when) {
    for (auto &x : f.graph.nodes)
        if (x.reached_from_source || x.index_of_predecessor != SIZE_MAX || x.node_event_tracker.has_desired_time || x.node_event_tracker.has_queued_time) fail(std::string("search state left behind ") + when);
    if (!f.queue.empty() || f.queue.size() || !f.reached_nodes.empty() || f.queue.cur_time) fail(std::string("search queue not back in its initial state ") + when);
}
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        Gr g = gen_graph(r, r.pick({3, 6, 10, 25}), r.chance(30));
        if (r.chance(1, 100)) {
            g = Gr();
            g.n = r.range(120, 300);
            for (int i = 0; i + 1 < g.n; i++) g.es.push_back({i, i + 1, 2 * r.range((1 << 24) - 40, (1 << 24) - 1), {}});
            if (r.chance(50)) g.es.push_back({0, -1, 2 * r.range(0, 100), {}});
        }
        Oracle O(g);
        set_case(g.str());
        SearchGraph sg(g.n);
        for (auto &e : g.es)
            if (e.v < 0) sg.add_boundary_edge(e.u, e.w, e.obs);
            else sg.add_edge(e.u, e.v, e.w, e.obs);
        SearchFlooder f(std::move(sg));
        int rounds = r.range(1, 8);
        for (int q = 0; q < rounds; q++) {
            int s = r.below(g.n), t = r.chance(30) ? -1 : (int)r.below(g.n);
            if (s == t) continue;
            bool from_src = r.chance(50);
            n_cases++;
            if (g.n > 3) n_nontrivial++;
            add_case("search " + std::to_string(s) + " -> " + std::to_string(t) + (from_src ? " in order\n" : " from the middle\n"));
            int64_t best = O.D(s, t);
            std::vector<std::array<int64_t, 3>> got;   // from, to, weight
            int mask = 0;
            auto h = [&](const SearchGraphEdge &e) {
                auto *x = e.detector_node;
                if (e.neighbor_index >= x->neighbors.size()) fail("an edge that does not exist was visited");
                auto *y = x->neighbors[e.neighbor_index];
                got.push_back({x - &f.graph.nodes[0], y ? y - &f.graph.nodes[0] : -1, x->neighbor_weights[e.neighbor_index]});
                mask ^= g.comp_mask(x->neighbor_observable_indices[e.neighbor_index]);
                if (got.size() > 3 * g.es.size() + 5) fail("the path does not end");
            };
            size_t si = s, ti = t < 0 ? SIZE_MAX : t;
            bool th = throws([&] {
                if (from_src) f.iter_edges_on_shortest_path_from_source(si, ti, h);
                else f.iter_edges_on_shortest_path_from_middle(si, ti, h);
            });
            if (th != (best >= INF)) fail(th ? "no path found although one exists" : "a path was reported although none exists");
            idle(f, "after a search");
            if (th) continue;
            int64_t w = 0;
            for (auto &e : got) w += e[2];
            if (w != best) fail("path weight " + std::to_string(w) + " is not the minimum " + std::to_string(best));
            if (!O.tight(s, t, mask)) fail("the visited edges are not a shortest path");
            // exactly one simple path: degrees, distinct edges
            std::map<int64_t, int> deg;
            std::set<std::pair<int64_t, int64_t>> es;
            for (auto &e : got) {
                deg[e[0]]++;
                deg[e[1]]++;
                if (!es.insert({std::min(e[0], e[1]), std::max(e[0], e[1])}).second) fail("an edge was visited twice");
            }
            if (deg[s] != 1 || deg[t] != 1) fail("the path does not join the two ends");
            for (auto &[k, d] : deg)
                if (k != s && k != t && d != 2) fail("the visited edges are not a simple path");
            if (from_src) {
                int64_t c = s;
                for (auto &e : got) {
                    if (e[0] != c) fail("edges are not visited in order from the source");
                    c = e[1];
                }
                if (c != t) fail("the visited edges do not end at the target");
            } else {   // connected?
                std::set<int64_t> seen{s};
                bool ch = true;
                while (ch) {
                    ch = false;
                    for (auto &e : got)
                        if (seen.count(e[0]) != seen.count(e[1])) { seen.insert(e[0]); seen.insert(e[1]); ch = true; }
                }
                if (seen.size() != deg.size()) fail("the visited edges are not connected");
            }
        }
    }
    return run.done();
}
