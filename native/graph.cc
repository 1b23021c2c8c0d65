// C10: insertion histories for the matching and search graph against a reference model.
#include "common.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
using namespace pm;
typedef std::tuple<int64_t, int64_t, uint64_t> E1;   // neighbour (-1 boundary), weight, mask
typedef std::tuple<int64_t, int64_t, std::vector<size_t>, int> E2;
struct Model {
    std::vector<std::multiset<E1>> m;
    std::vector<std::vector<E2>> s;
    std::vector<bool> bm;
    std::vector<int64_t> sbw;   // most recently added boundary edge weight in the search graph
    std::set<size_t> ndet, nobs;
    int64_t nsum = 0;
    std::multiset<std::pair<size_t, size_t>> sneg;
};
static void cmp(const MatchingGraph &g, const Model &M, size_t n, size_t nobs) {
    if (g.nodes.size() != n || g.num_nodes != n || g.num_observables != nobs) fail("matching graph changed its size");
    for (size_t i = 0; i < n; i++) {
        auto &x = g.nodes[i];
        if (x.neighbors.size() != x.neighbor_weights.size() || x.neighbors.size() != x.neighbor_observables.size() || x.neighbors.size() != x.neighbor_implied_weights.size())
            fail("neighbour records of node " + std::to_string(i) + " have different lengths");
        std::multiset<E1> got;
        for (size_t k = 0; k < x.neighbors.size(); k++) {
            if (!x.neighbors[k] && k) fail("a boundary edge is not the first neighbour");
            got.insert({x.neighbors[k] ? x.neighbors[k] - &g.nodes[0] : -1, x.neighbor_weights[k], x.neighbor_observables[k]});
        }
        if (got != M.m[i]) fail("matching graph edges at node " + std::to_string(i) + " are not those added");
        auto it = g.edges_to_implied_weights_unconverted.find(i);
        size_t rules = it == g.edges_to_implied_weights_unconverted.end() ? 0 : it->second.size();
        if (rules != x.neighbors.size()) fail("reweighting rules of node " + std::to_string(i) + " do not line up with its neighbours");
    }
    if (g.negative_weight_detection_events_set != M.ndet) fail("endpoints of negative edges are recorded wrongly");
    if (g.negative_weight_observables_set != M.nobs) fail("observables of negative edges are recorded wrongly");
    if (g.negative_weight_sum != M.nsum) fail("sum of negative weights is wrong");
}
static void cmp(const SearchGraph &g, const Model &M, size_t n) {
    if (g.nodes.size() != n || g.num_nodes != n) fail("search graph changed its size");
    for (size_t i = 0; i < n; i++) {
        auto &x = g.nodes[i];
        size_t d = x.neighbors.size();
        if (d != x.neighbor_weights.size() || d != x.neighbor_observable_indices.size() || d != x.neighbor_markers.size() || d != x.neighbor_implied_weights.size()) fail("search graph records of a node have different lengths");
        std::multiset<E2> got, want(M.s[i].begin(), M.s[i].end());
        bool inner = false;
        for (size_t k = 0; k < d; k++) {
            if (!x.neighbors[k] && inner) fail("a boundary edge follows another neighbour in the search graph");
            if (x.neighbors[k]) inner = true;
            got.insert({x.neighbors[k] ? x.neighbors[k] - &g.nodes[0] : -1, x.neighbor_weights[k], x.neighbor_observable_indices[k], x.neighbor_markers[k]});
        }
        if (got != want) fail("search graph edges at node " + std::to_string(i) + " are not those added");
    }
    std::multiset<std::pair<size_t, size_t>> ng(g.negative_weight_edges.begin(), g.negative_weight_edges.end());
    if (ng != M.sneg) fail("negative edges of the search graph are recorded wrongly");
}
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        size_t n = r.below(r.pick({2, 4, 8})) + (r.chance(5) ? 0 : 1);
        size_t nobs = r.pick<size_t>({0, 1, 3, 32, 33, 63, 64, 64, 65, 70, 128});
        MatchingGraph g(n, nobs);
        SearchGraph s(n);
        Model M;
        M.m.resize(n); M.s.resize(n); M.bm.assign(n, false); M.sbw.resize(n);
        std::stringstream ss;
        ss << "nodes " << n << " observables " << nobs << "\n";
        set_case(ss.str());
        int ops = r.range(1, 25);
        n_cases++;
        if (ops > 4) n_nontrivial++;
        for (int k = 0; k < ops; k++) {
            size_t u = r.below(n + 1), v = r.below(n + 1);
            if (r.chance(80)) { u = n ? r.below(n) : 0; v = n ? r.below(n) : 0; }
            if (r.chance(2)) u = r.pick<size_t>({n, n + 1, 1000});
            if (r.chance(2)) v = r.pick<size_t>({n, n + 1, 1000});
            int64_t w = r.pick<int64_t>({0, 2, -2, 4, -4, 33554430, -33554430, r.range(-1000, 1000) * 2});
            std::vector<size_t> obs;
            if (nobs)
                for (int q = r.below(4); q > 0; q--) obs.push_back(r.chance(40) ? nobs - 1 : r.below(nobs));
            uint64_t mask = 0;
            if (nobs <= 64) for (auto o : obs) mask ^= 1ull << o;
            bool b = r.chance(30);
            std::stringstream o;
            o << (b ? "boundary " : "edge ") << u << " " << v << " weight " << w << " obs";
            for (auto x : obs) o << " " << x;
            add_case(o.str() + "\n");
            int which = r.below(10);
            bool doM = which < 8, doS = which != 7;
            if (b) {
                bool bad = u >= n, second = !bad && M.bm[u];
                if (doM) {
                    bool t = throws([&] { g.add_boundary_edge(u, w, obs); });
                    if (t != (bad || second)) fail(t ? "a valid boundary edge was rejected" : "an invalid boundary edge was accepted");
                    if (!t) {
                        M.m[u].insert({-1, std::abs(w), mask});
                        M.bm[u] = true;
                        if (w < 0) {
                            M.nsum += w;
                            if (!M.ndet.erase(u)) M.ndet.insert(u);
                            for (auto x : obs) if (!M.nobs.erase(x)) M.nobs.insert(x);
                        }
                    }
                }
                if (doS) {
                    bool t = throws([&] { s.add_boundary_edge(u, w, obs); });
                    if (t != bad) fail(t ? "a valid boundary edge was rejected by the search graph" : "an invalid boundary edge was accepted by the search graph");
                    if (!t) {
                        M.s[u].push_back({-1, std::abs(w), obs, w < 0 ? 2 : 0});
                        if (w < 0) M.sneg.insert({u, SIZE_MAX});
                    }
                }
            } else {
                bool bad = u >= n || v >= n;
                if (doM) {
                    bool t = throws([&] { g.add_edge(u, v, w, obs); });
                    if (t != bad) fail(t ? "a valid edge was rejected" : "an edge with an out-of-range node was accepted");
                    if (!t) {
                        if (u != v) {
                            M.m[u].insert({(int64_t)v, std::abs(w), mask});
                            M.m[v].insert({(int64_t)u, std::abs(w), mask});
                        }
                        if (w < 0) {
                            M.nsum += w;
                            for (auto x : {u, v}) if (!M.ndet.erase(x)) M.ndet.insert(x);
                            for (auto x : obs) if (!M.nobs.erase(x)) M.nobs.insert(x);
                        }
                    }
                }
                if (doS) {
                    bool t = throws([&] { s.add_edge(u, v, w, obs); });
                    if (t != bad) fail(t ? "a valid edge was rejected by the search graph" : "an edge with an out-of-range node was accepted by the search graph");
                    if (!t && u != v) {
                        M.s[u].push_back({(int64_t)v, std::abs(w), obs, w < 0 ? 2 : 0});
                        M.s[v].push_back({(int64_t)u, std::abs(w), obs, w < 0 ? 2 : 0});
                        if (w < 0) M.sneg.insert({u, v});
                    }
                }
            }
            cmp(g, M, n, nobs);
            cmp(s, M, n);
        }
        // the graphs keep everything when moved into a decoder
        MatchingGraph g2(std::move(g));
        cmp(g2, M, n, nobs);
        GraphFlooder f(std::move(g2));
        f.sync_negative_weight_observables_and_detection_events();
        cmp(f.graph, M, n, nobs);
        std::multiset<uint64_t> d(f.negative_weight_detection_events.begin(), f.negative_weight_detection_events.end()), ob(f.negative_weight_observables.begin(), f.negative_weight_observables.end());
        if (d != std::multiset<uint64_t>(M.ndet.begin(), M.ndet.end()) || ob != std::multiset<uint64_t>(M.nobs.begin(), M.nobs.end())) fail("the decoder's record of negative edges differs from the graph's");
        uint64_t mk = 0;
        if (nobs <= 64) for (auto x : M.nobs) mk ^= 1ull << x;
        if (nobs <= 64 && f.negative_weight_obs_mask != mk) fail("the decoder's mask of negative-edge observables is wrong");
        if (f.negative_weight_sum != M.nsum) fail("the decoder's negative weight sum is wrong");
        Mwpm mw(std::move(f), SearchFlooder(std::move(s)));
        cmp(mw.flooder.graph, M, n, nobs);
        cmp(mw.search_flooder.graph, M, n);
    }
    return run.done();
}
