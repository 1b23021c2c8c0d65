// C17: decoding with negative weights against enumeration of all error sets; invalid detection events.
#include "common.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
using namespace pm;
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        Gr g;
        do { g = gen_graph(r, r.pick({2, 3, 5, 6}), r.chance(30)); } while (g.es.size() > 12);
        int np = r.pick({0, 20, 50, 100});
        for (auto &e : g.es) { if (e.w > 1000) e.w = 2 * (e.w % 500); if (r.chance(np)) e.w = -e.w; }
        if (r.chance(15) && g.es.size() < 12) g.es.push_back({0, 0, -2 * r.range(1, 5), g.pos.empty() ? std::vector<size_t>{} : std::vector<size_t>{g.pos[0]}});   // self-loop
        set_case(g.str());
        // minimum over all error sets, per syndrome
        size_t E = g.es.size();
        std::map<unsigned, std::pair<int64_t, unsigned>> best;
        for (unsigned S = 0; S < (1u << E); S++) {
            unsigned syn = 0;
            int64_t w = 0;
            int mk = 0;
            for (size_t i = 0; i < E; i++)
                if (S >> i & 1) {
                    syn ^= 1u << g.es[i].u;
                    if (g.es[i].v >= 0) syn ^= 1u << g.es[i].v;
                    w += g.es[i].w;
                    mk ^= g.comp_mask(g.es[i].obs);
                }
            auto it = best.find(syn);
            if (it == best.end() || w < it->second.first) best[syn] = {w, 1u << mk};
            else if (w == it->second.first) it->second.second |= 1u << mk;
        }
        bool search = g.nobs > 64 || r.chance(50), user = r.chance(40);
        std::unique_ptr<UserGraph> ug;
        std::unique_ptr<Mwpm> own;
        if (user) {
            ug.reset(new UserGraph(g.n, g.nobs));
            for (auto &e : g.es)
                if (e.v < 0) ug->add_or_merge_boundary_edge(e.u, e.obs, e.w, -1);
                else ug->add_or_merge_edge(e.u, e.v, e.obs, e.w, -1);
        } else {
            MatchingGraph mg(g.n, g.nobs);
            SearchGraph sg(search ? g.n : 0);
            for (auto &e : g.es)
                if (e.v < 0) { mg.add_boundary_edge(e.u, e.w, e.obs); if (search) sg.add_boundary_edge(e.u, e.w, e.obs); }
                else { mg.add_edge(e.u, e.v, e.w, e.obs); if (search) sg.add_edge(e.u, e.v, e.w, e.obs); }
            own.reset(new Mwpm(GraphFlooder(std::move(mg)), SearchFlooder(std::move(sg))));
            own->flooder.sync_negative_weight_observables_and_detection_events();
        }
        Mwpm &m = user ? (search ? ug->get_mwpm_with_search_graph() : ug->get_mwpm()) : *own;
        int64_t f = user ? 2 : 1;   // integral user weights are doubled
        int rounds = r.range(1, 5);
        for (int q = 0; q < rounds; q++) {
            n_cases++;
            if (E > 3) n_nontrivial++;
            unsigned syn = r.below(1u << g.n);
            std::vector<uint64_t> ev;
            for (int i = 0; i < g.n; i++) if (syn >> i & 1) ev.push_back(i);
            for (size_t i = ev.size(); i > 1; i--) std::swap(ev[i - 1], ev[r.below(i)]);
            bool bad = r.chance(12);
            if (bad) ev.insert(ev.begin() + r.below(ev.size() + 1), g.n + r.pick<uint64_t>({0, 1, 100, 1ull << 40}));
            auto it = best.find(syn);
            bool none = it == best.end();
            int how = r.below(4);
            std::string s = "decode (mode " + std::to_string(how) + ")";
            for (auto e : ev) s += " " + std::to_string(e);
            add_case(s + "\n");
            std::vector<uint8_t> out(g.nobs + 1), old;
            for (auto &x : out) x = r.below(2);
            old = out;
            total_weight_int w = r.range(-50, 50), w0 = w;
            MatchingResult res;
            std::vector<int64_t> edges;
            if (how == 3 && !search) how = 0;
            if (how == 1 && g.nobs > 64) how = 0;
            if (how == 2) {
                bool th = throws([&] { decode_detection_events_to_match_edges(m, ev); });
                bool neg = m.flooder.negative_weight_sum != 0;
                if (th != (bad || none || neg)) fail(th ? "decoding to matched pairs failed although a matching exists" : "decoding to matched pairs did not reject the input");
                continue;
            }
            bool th = throws([&] {
                if (how == 0) decode_detection_events(m, ev, out.data(), w, false);
                else if (how == 1) res = decode_detection_events_for_up_to_64_observables(m, ev, false);
                else decode_detection_events_to_edges(m, ev, edges);
            });
            if (th != (bad || none)) fail(th ? "decoding failed although an error set exists" : bad ? "an out-of-range detection event was accepted" : "decoding succeeded although no error set has this syndrome");
            if (th) {
                if (how == 0 && (out != old || w != w0)) fail("a rejected decode changed the outputs");
                continue;
            }
            int64_t want = it->second.first * f;
            if (how == 0) {
                std::vector<size_t> fl;
                for (size_t i = 0; i < out.size(); i++) if (out[i] != old[i]) fl.push_back(i);
                if (w - w0 != want) fail("weight " + std::to_string(w - w0) + " is not the minimum " + std::to_string(want));
                for (auto x : fl) if (std::find(g.pos.begin(), g.pos.end(), x) == g.pos.end()) fail("an observable no edge crosses was flipped");
                if (!(it->second.second >> g.comp_mask(fl) & 1)) fail("observables are not those of a minimum-weight error");
            } else if (how == 1) {
                if (res.weight != want) fail("weight " + std::to_string(res.weight) + " is not the minimum " + std::to_string(want));
                int c = g.comp64(res.obs_mask);
                if (c < 0 || !(it->second.second >> c & 1)) fail("observables are not those of a minimum-weight error");
            } else {
                unsigned sy = 0;
                int64_t tw = 0;
                std::set<std::pair<int64_t, int64_t>> seen;
                for (size_t i = 0; i < edges.size(); i += 2) {
                    int64_t a = edges[i], b = edges[i + 1];
                    if (!seen.insert({std::min(a, b), std::max(a, b)}).second) fail("an edge is listed twice");
                    bool ok = false;
                    for (auto &e : g.es) if ((e.u == a && e.v == b) || (e.u == b && e.v == a)) { ok = true; tw += e.w; }
                    if (!ok) fail("an edge that does not exist is listed");
                    if (a >= 0) sy ^= 1u << a;
                    if (b >= 0) sy ^= 1u << b;
                }
                for (auto &e : g.es) if (e.u == e.v && e.w < 0) tw += e.w;   // negative self-loops cannot be listed
                if (sy != syn) fail("the listed edges do not explain the detection events");
                if (tw != it->second.first) fail("the listed edges have weight " + std::to_string(tw) + ", not the minimum " + std::to_string(it->second.first));
                if (search) for (auto &x : m.search_flooder.graph.nodes) for (auto k : x.neighbor_markers) if (k & FLIPPED) fail("an edge is left marked as flipped");
            }
        }
    }
    return run.done();
}
