// C16: edge-insertion histories on the user graph, conversion to integer weights, invalid requests.
#include "common.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
#include <cmath>
using namespace pm;
struct ME { size_t a, b; std::vector<size_t> obs; double w, p; };   // b == SIZE_MAX: boundary
static bool near(double x, double y) { return x == y || std::abs(x - y) <= 1e-9 * std::max(1.0, std::max(std::abs(x), std::abs(y))); }
static double xorw(double a, double b) {
    long double pa = 1 / (1 + expl(a)), pb = 1 / (1 + expl(b));
    long double q = pa * (1 - pb) + pb * (1 - pa);
    return (double)logl((1 - q) / q);
}
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        n_cases++;
        size_t n0 = r.below(3), o0 = r.below(3);
        UserGraph g = o0 ? UserGraph(n0, o0) : n0 ? UserGraph(n0) : UserGraph();
        size_t n = n0, nobs = o0;
        std::vector<ME> es;
        std::set<size_t> bnd;
        set_case("user graph with " + std::to_string(n0) + " nodes and " + std::to_string(o0) + " observables\n");
        int wk = r.below(5), maxn = r.pick({2, 4, 8});
        auto weight = [&]() -> double {
            switch (wk) {
                case 0: return r.range(-5, 5);
                case 1: return r.range(-1000, 1000) / 100.0;
                case 2: return r.range(0, 16777215);
                case 3: return r.range(-3000000, 3000000) / 7.0;
                default: return r.chance(20) ? 0.0 : r.range(1, 1000) / 331.0;
            }
        };
        int ops = r.range(1, 20);
        if (ops > 4) n_nontrivial++;
        for (int k = 0; k < ops; k++) {
            size_t a = r.below(maxn), b = r.chance(25) ? SIZE_MAX : r.below(maxn);
            double w = weight(), p = r.chance(60) ? r.range(0, 100) / 100.0 : r.pick({-1.0, 2.0});
            std::vector<size_t> obs;
            for (int q = r.below(3); q > 0; q--) obs.push_back(r.pick<size_t>({0, 1, 2, 5, 40, 70}));
            MERGE_STRATEGY st = r.pick({DISALLOW, INDEPENDENT, SMALLEST_WEIGHT, KEEP_ORIGINAL, REPLACE});
            std::stringstream s;
            s << "add " << a << " " << (b == SIZE_MAX ? -1 : (int)b) << " w " << w << " p " << p << " strategy " << (int)st << " obs";
            for (auto x : obs) s << " " << x;
            add_case(s.str() + "\n");
            ME *old = nullptr;
            for (auto &e : es) if ((e.a == a && e.b == b) || (e.a == b && e.b == a)) old = &e;
            bool th = throws([&] { if (b == SIZE_MAX) g.add_or_merge_boundary_edge(a, obs, w, p, st); else g.add_or_merge_edge(a, b, obs, w, p, st); });
            if (th != (old && st == DISALLOW)) fail(th ? "a permitted edge was rejected" : "a parallel edge was not rejected");
            n = std::max(n, a + 1);
            if (b != SIZE_MAX) n = std::max(n, b + 1);
            bool used = false;
            if (!old) {
                es.push_back({a, b, obs, w, p});
                used = true;
            } else if (st == REPLACE || (st == SMALLEST_WEIGHT && w < old->w)) {
                old->w = w; old->p = p; old->obs = obs;
                used = true;
            } else if (st == INDEPENDENT) {
                auto ok = [](double x) { return x >= 0 && x <= 1; };
                double np = ok(p) && ok(old->p) ? p * (1 - old->p) + old->p * (1 - p) : -1;
                double nw = merge_weights(w, old->w);
                if (std::abs(w) < 30 && std::abs(old->w) < 30 && std::abs(nw - xorw(w, old->w)) > 1e-6) fail("independent errors are not combined correctly");
                if (std::abs(nw) > std::min(std::abs(w), std::abs(old->w)) + 1e-9) fail("combining independent errors cannot make an error less likely");
                old->w = nw; old->p = np;
            }
            if (used) for (auto o : obs) nobs = std::max(nobs, o + 1);
            // compare
            if (g.get_num_nodes() != n) fail("node count is wrong");
            if (g.get_num_edges() != es.size()) fail("edge count is wrong");
            if (g.get_num_observables() != nobs) fail("observable count is wrong");
            size_t i = 0;
            bool all = true;
            for (auto &e : g.edges) {
                ME *m = nullptr;
                for (auto &x : es) if ((x.a == e.node1 && x.b == e.node2) || (x.a == e.node2 && x.b == e.node1)) m = &x;
                if (!m) fail("an edge is stored that was never added");
                if (!near(e.weight, m->w)) fail("stored weight " + std::to_string(e.weight) + " differs from " + std::to_string(m->w));
                if (!near(e.error_probability, m->p)) fail("stored error probability is wrong");
                if (e.observable_indices != m->obs) fail("stored observables are wrong");
                i++;
            }
            for (auto &x : es) {
                all &= x.p >= 0 && x.p <= 1;
                double wo = 0;
                if (!(x.b == SIZE_MAX ? g.has_boundary_edge(x.a) : g.has_edge(x.a, x.b) && g.has_edge(x.b, x.a))) fail("a stored edge is not found");
                if (!g.get_edge_or_boundary_edge_weight(x.a, x.b, wo) || !near(wo, x.w)) fail("edge weight lookup is wrong");
                if (x.b != SIZE_MAX && (!g.get_edge_or_boundary_edge_weight(x.b, x.a, wo) || !near(wo, x.w))) fail("edge weight lookup is wrong in the other direction");
            }
            for (size_t u = 0; u < n; u++)
                for (size_t v = 0; v < n; v++) {
                    bool have = false;
                    for (auto &x : es) have |= (x.a == u && x.b == v) || (x.a == v && x.b == u);
                    if (g.has_edge(u, v) != have) fail("edge lookup is wrong");
                }
            if (g.has_edge(n, 0) || g.has_boundary_edge(n)) fail("an edge was found at a node that does not exist");
            if (r.chance(12)) {
                std::set<size_t> nb;
                for (int q = r.below(3); q > 0; q--) nb.insert(r.below(n + 1));
                g.set_boundary(nb);
                bnd = nb;
                for (auto x : nb) n = std::max(n, x + 1);
                std::string t = "set boundary";
                for (auto x : nb) t += " " + std::to_string(x);
                add_case(t + "\n");
                if (g.get_boundary() != nb || g.get_num_nodes() != n || g.get_num_detectors() != n - nb.size()) fail("boundary is recorded wrongly");
                for (size_t u = 0; u < n; u++) if (g.is_boundary_node(u) != (nb.count(u) > 0)) fail("boundary membership is wrong");
            }
        }
        // discretisation
        double mx = 0;
        bool integral = true;
        for (auto &e : g.edges) { mx = std::max(mx, std::abs(e.weight)); integral &= std::round(e.weight) == e.weight; }
        weight_int nd = r.pick<weight_int>({1 << 24, 1 << 24, 1 << 14, 1000});
        bool over = mx > (1 << 24) - 1;
        double half = integral ? 1.0 : (nd - 1) / mx;
        struct DE { size_t a, b; int64_t w; std::vector<size_t> obs; };
        std::vector<DE> got;
        double scale = 0;
        add_case("convert with " + std::to_string(nd) + " distinct weights\n");
        bool th = throws([&] {
            scale = g.iter_discretized_edges(
                nd, [&](size_t u, size_t v, signed_weight_int w, const std::vector<size_t> &o, const auto &) { got.push_back({u, v, w, o}); },
                [&](size_t u, signed_weight_int w, const std::vector<size_t> &o, const auto &) { got.push_back({u, SIZE_MAX, w, o}); });
        });
        if (th != over) fail(th ? "conversion was rejected" : "a weight above the maximum was accepted");
        if (th) continue;
        if (es.size() && !near(scale, 2 * half)) fail("the normalising constant is not twice the half-weight scale");
        std::vector<DE> want;
        auto isb = [&](size_t x) { return x == SIZE_MAX || bnd.count(x); };
        for (auto &e : g.edges) {
            int64_t w = 2 * (int64_t)std::llround(e.weight * half);
            if (isb(e.node1) && isb(e.node2)) continue;
            if (isb(e.node2)) want.push_back({e.node1, SIZE_MAX, w, e.observable_indices});
            else if (isb(e.node1)) want.push_back({e.node2, SIZE_MAX, w, e.observable_indices});
            else want.push_back({e.node1, e.node2, w, e.observable_indices});
        }
        if (got.size() != want.size()) fail("conversion lost or added an edge");
        auto key = [](const DE &d) { return std::make_tuple(std::min(d.a, d.b), std::max(d.a, d.b), d.w, d.obs); };
        std::multiset<decltype(key(DE{}))> gs, ws;
        for (auto &d : got) {
            gs.insert(key(d));
            if (d.w % 2) fail("a converted weight is odd");
            if (std::abs(d.w) > 2ll * (integral ? (1 << 24) - 1 : nd - 1)) fail("a converted weight exceeds the maximum");
        }
        for (auto &d : want) ws.insert(key(d));
        if (gs != ws) fail("a converted edge is not the nearest even integer of its scaled weight, or has the wrong ends or observables");
        // complete conversion: one boundary edge per node, the lightest
        MatchingGraph mg = g.to_matching_graph(nd);
        SearchGraph sg = g.to_search_graph(nd);
        if (mg.nodes.size() != n || sg.nodes.size() != n || mg.num_observables != nobs) fail("converted graph has the wrong size");
        std::map<size_t, int64_t> bw;
        std::vector<std::multiset<std::pair<int64_t, int64_t>>> adj(n);
        int64_t ns = 0;
        for (auto &d : want) {
            if (d.b == SIZE_MAX) { if (!bw.count(d.a) || bw[d.a] > d.w) bw[d.a] = d.w; }
            else {
                if (d.a != d.b) { adj[d.a].insert({(int64_t)d.b, std::abs(d.w)}); adj[d.b].insert({(int64_t)d.a, std::abs(d.w)}); }
                if (d.w < 0) ns += d.w;
            }
        }
        for (auto &[u, w] : bw) { adj[u].insert({-1, std::abs(w)}); if (w < 0) ns += w; }
        for (size_t u = 0; u < n; u++) {
            std::multiset<std::pair<int64_t, int64_t>> a, b;
            for (size_t k = 0; k < mg.nodes[u].neighbors.size(); k++) a.insert({mg.nodes[u].neighbors[k] ? mg.nodes[u].neighbors[k] - &mg.nodes[0] : -1, mg.nodes[u].neighbor_weights[k]});
            for (size_t k = 0; k < sg.nodes[u].neighbors.size(); k++) b.insert({sg.nodes[u].neighbors[k] ? sg.nodes[u].neighbors[k] - &sg.nodes[0] : -1, sg.nodes[u].neighbor_weights[k]});
            if (a != adj[u]) fail("matching graph built from the user graph has wrong edges");
            if (b != adj[u]) fail("search graph built from the user graph has wrong edges");
        }
        if (mg.negative_weight_sum != ns) fail("negative weight sum of the converted graph is wrong");
        if (!near(mg.normalising_constant, scale)) fail("the converted graph records the wrong normalising constant");
        // invalid shortest-path endpoints
        std::vector<size_t> pth;
        if (!throws([&] { g.get_nodes_on_shortest_path_from_source(n + r.below(3), 0, pth); })) fail("an out-of-range source was accepted");
        if (!throws([&] { g.get_nodes_on_shortest_path_from_source(0, n + r.below(3), pth); })) fail("an out-of-range target was accepted");
        if (!throws([&] { g.get_nodes_on_shortest_path_from_source(SIZE_MAX, SIZE_MAX, pth); })) fail("a path between two boundary nodes was accepted");
    }
    return run.done();
}
