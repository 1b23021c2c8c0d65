// C11: reweighting and undoing on random graphs with random rules, against a map of weights.
#include "common.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
#include <cmath>
using namespace pm;
template <class G> struct Tester {
    G &g;
    const Gr &gr;
    std::vector<std::vector<ImpliedWeightUnconverted>> rules;
    std::map<std::pair<int, int>, int> idx;
    std::vector<int64_t> w, w0;
    double nc;
    int find(int64_t u, int64_t v) {
        if (u < 0 || v < 0) return idx.at({(int)std::max(u, v), -1});
        return idx.at({(int)std::min(u, v), (int)std::max(u, v)});
    }
    void cmp(const char *when) {
        for (size_t u = 0; u < g.nodes.size(); u++)
            for (size_t k = 0; k < g.nodes[u].neighbors.size(); k++) {
                int64_t v = g.nodes[u].neighbors[k] ? g.nodes[u].neighbors[k] - &g.nodes[0] : -1;
                if (g.nodes[u].neighbor_weights[k] != w[find(u, v)])
                    fail(std::string(when) + ": weight of " + std::to_string(u) + "-" + std::to_string(v) + " is " + std::to_string(g.nodes[u].neighbor_weights[k]) + ", expected " + std::to_string(w[find(u, v)]));
            }
    }
    void model(int64_t u, int64_t v) {
        for (auto &x : rules[find(u, v)]) {
            int e = find(x.node1, x.node2 == SIZE_MAX ? -1 : (int64_t)x.node2);
            int64_t nw = std::llabs((int64_t)std::round(x.implied_weight * (nc / 2)) * 2);
            if (nw < w[e]) w[e] = nw;
        }
    }
};
template <class G, class A> static void run1(Rng &r, const Gr &gr, G &g, A add) {
    Tester<G> t{g, gr};
    t.rules.resize(gr.es.size());
    t.nc = r.pick<double>({2.0, 2.0, 1.0, 200.0, 33.7, 0.5});
    std::stringstream ss;
    for (size_t i = 0; i < gr.es.size(); i++) {
        auto &e = gr.es[i];
        t.idx[e.v < 0 ? std::make_pair(e.u, -1) : std::make_pair(std::min(e.u, e.v), std::max(e.u, e.v))] = i;
        t.w.push_back(std::abs(e.w));
        for (int q = r.below(5); q > 0; q--) {
            auto &f = gr.es[r.below(gr.es.size())];
            double iw = r.chance(60) ? std::abs(f.w) / t.nc + r.range(-3, 3) : r.range(0, 40) / 3.0;
            if (iw < 0 || std::abs(iw * t.nc) > 4e7) iw = 0;
            ImpliedWeightUnconverted x;
            if (f.v < 0) x = {(size_t)f.u, SIZE_MAX, iw};
            else if (r.chance(50)) x = {(size_t)f.u, (size_t)f.v, iw};
            else x = {(size_t)f.v, (size_t)f.u, iw};
            t.rules[i].push_back(x);
            ss << "rule on edge " << e.u << "," << e.v << ": edge " << f.u << "," << f.v << " -> " << iw << "\n";
        }
    }
    ss << "normalising constant " << t.nc << "\n";
    add_case(ss.str());
    for (size_t i = 0; i < gr.es.size(); i++) add(gr.es[i], t.rules[i]);
    t.w0 = t.w;
    g.convert_implied_weights(t.nc);
    t.cmp("after converting the rules");
    int rounds = r.range(1, 3);
    for (int q = 0; q < rounds; q++) {
        int steps = r.below(5);
        for (int k = 0; k < steps; k++) {
            std::vector<int64_t> es;
            for (int m = r.below(4); m >= 0; m--) {
                auto &e = gr.es[r.below(gr.es.size())];
                if (e.v >= 0 && r.chance(50)) { es.push_back(e.v); es.push_back(e.u); }
                else { es.push_back(e.u); es.push_back(e.v); }
            }
            std::string s = "reweight for";
            for (auto x : es) s += " " + std::to_string(x);
            add_case(s + "\n");
            if (es.size() == 2 && r.chance(50)) g.reweight_for_edge(es[0], es[1]);
            else g.reweight_for_edges(es);
            for (size_t i = 0; i < es.size(); i += 2) t.model(es[i], es[i + 1]);
            t.cmp("after reweighting");
        }
        add_case("undo\n");
        g.undo_reweights();
        t.w = t.w0;
        t.cmp("after undoing");
        if (!g.previous_weights.empty()) fail("something is left to undo");
    }
}
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        Gr gr = gen_graph(r, r.pick({2, 4, 8}));
        if (gr.es.empty()) continue;
        if (r.chance(20)) for (auto &e : gr.es) if (r.chance(30)) e.w = -e.w;
        n_cases++;
        if (gr.es.size() > 2) n_nontrivial++;
        set_case(gr.str());
        if (r.chance(50)) {
            MatchingGraph g(gr.n, gr.nobs);
            run1(r, gr, g, [&](const Ed &e, auto &ru) { if (e.v < 0) g.add_boundary_edge(e.u, e.w, e.obs, ru); else g.add_edge(e.u, e.v, e.w, e.obs, ru); });
        } else {
            SearchGraph g(gr.n);
            run1(r, gr, g, [&](const Ed &e, auto &ru) { if (e.v < 0) g.add_boundary_edge(e.u, e.w, e.obs, ru); else g.add_edge(e.u, e.v, e.w, e.obs, ru); });
        }
    }
    return run.done();
}
