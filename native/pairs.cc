// C14: expansion of matched pairs, combination of results, mask conversion.
#include "common.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "pymatching/sparse_blossom/driver/user_graph.h"
using namespace pm;
static void conversions(Rng &r) {
    size_t n = r.pick<size_t>({0, 1, 2, 31, 32, 33, 48, 63, 64, (size_t)r.below(65)});
    uint64_t mask = r.next() & (n == 64 ? ~0ull : (1ull << n) - 1);
    if (r.chance(30) && n) mask = 1ull << r.below(n);
    std::vector<uint8_t> out(n + 2), old;
    for (auto &x : out) x = r.below(2);
    old = out;
    set_case("mask " + std::to_string(mask) + " with " + std::to_string(n) + " observables\n");
    fill_bit_vector_from_obs_mask(mask, out.data(), n);
    for (size_t i = 0; i < n; i++)
        if (out[i] != (old[i] ^ (mask >> i & 1))) fail("bit " + std::to_string(i) + " of the mask is not XOR-ed into the output");
    if (out[n] != old[n] || out[n + 1] != old[n + 1]) fail("mask conversion wrote past the end");
    std::vector<uint8_t> bits(n);
    for (size_t i = 0; i < n; i++) bits[i] = mask >> i & 1;
    if (bit_vector_to_obs_mask(bits) != mask) fail("bit vector to mask conversion is not exact");
    std::vector<uint8_t> big(65 + r.below(10));
    if (!throws([&] { bit_vector_to_obs_mask(big); }) || !throws([&] { fill_bit_vector_from_obs_mask(1, big.data(), big.size()); })) fail("more than 64 observables must be rejected");
    // combination
    MatchingResult a(r.next(), r.range(-1000000, 1000000)), b(r.next(), r.range(-1000000, 1000000)), c = a + b, d = a;
    d += b;
    if (c.obs_mask != (a.obs_mask ^ b.obs_mask) || c.weight != a.weight + b.weight || !(c == d) || c != d) fail("results are not combined by XOR and sum");
    if (((a == b) != (a.obs_mask == b.obs_mask && a.weight == b.weight)) || (a != b) == (a == b)) fail("result equality is wrong");
    MatchingResult z;
    if (z.obs_mask || z.weight) fail("an empty result is not zero");
    size_t m = r.below(100);
    std::vector<uint8_t> x(m), y(m);
    for (auto &q : x) q = r.below(2);
    for (auto &q : y) q = r.below(2);
    ExtendedMatchingResult ex(x, r.range(-1000, 1000)), ey(y, r.range(-1000, 1000)), ez = ex + ey, ew = ex;
    ew += ey;
    if (ez != ew || !(ez == ew) || ez.weight != ex.weight + ey.weight || ez.obs_crossed.size() != m) fail("extended results are not combined correctly");
    for (size_t i = 0; i < m; i++) if (ez.obs_crossed[i] != (x[i] ^ y[i])) fail("extended results' observables are not XOR-ed");
    ez.reset();
    if (ez.weight || ez != ExtendedMatchingResult(m)) fail("a reset extended result is not zero");
}
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        for (int k = 0; k < 20; k++) conversions(r);
        bool many = r.chance(65);
        Gr g = gen_graph(r, r.pick({3, 6, 9, 15}), many);
        Oracle O(g);
        set_case(g.str());
        MatchingGraph mg(g.n, g.nobs);
        SearchGraph sg(g.n);
        for (auto &e : g.es)
            if (e.v < 0) { mg.add_boundary_edge(e.u, e.w, e.obs); sg.add_boundary_edge(e.u, e.w, e.obs); }
            else { mg.add_edge(e.u, e.v, e.w, e.obs); sg.add_edge(e.u, e.v, e.w, e.obs); }
        Mwpm m(GraphFlooder(std::move(mg)), SearchFlooder(std::move(sg)));
        m.flooder.sync_negative_weight_observables_and_detection_events();
        int rounds = r.range(1, 4);
        for (int q = 0; q < rounds; q++) {
            n_cases++;
            std::vector<uint8_t> out(g.nobs + 2), old;
            for (auto &x : out) x = r.below(2);
            old = out;
            total_weight_int w = r.range(-100000, 100000), w0 = w;
            auto check = [&](int64_t want, unsigned masks, const char *what) {
                if (w != w0 + want) fail(std::string(what) + ": weight " + std::to_string(w - w0) + " was added, expected " + std::to_string(want));
                std::vector<size_t> fl;
                for (size_t i = 0; i < out.size(); i++) {
                    if (out[i] > 1) fail("an output entry is not a bit");
                    if (out[i] != old[i]) fl.push_back(i);
                }
                for (auto i : fl) if (std::find(g.pos.begin(), g.pos.end(), i) == g.pos.end()) fail(std::string(what) + ": observable " + std::to_string(i) + " was flipped, but no edge crosses it");
                if (!(masks >> g.comp_mask(fl) & 1)) fail(std::string(what) + ": the flipped observables are not those of the paths");
            };
            if (r.chance(50)) {   // explicit pairs
                std::vector<CompressedEdge> ce;
                int64_t want = 0;
                unsigned masks = 1;
                std::string s = "expand pairs";
                for (int k = r.below(5); k > 0; k--) {
                    int u = r.below(g.n), v = r.chance(30) ? -1 : (int)r.below(g.n);
                    if (u == v || O.D(u, v) >= INF) continue;
                    ce.push_back({&m.flooder.graph.nodes[u], v < 0 ? nullptr : &m.flooder.graph.nodes[v], 0});
                    want += O.D(u, v);
                    unsigned m2 = 0;
                    for (int a = 0; a < O.M; a++) for (int b = 0; b < O.M; b++) if ((masks >> a & 1) && O.tight(u, v, b)) m2 |= 1u << (a ^ b);
                    masks = m2;
                    s += " " + std::to_string(u) + "-" + std::to_string(v);
                }
                add_case(s + "\n");
                if (ce.size() > 1) n_nontrivial++;
                m.extract_paths_from_match_edges(ce, out.data(), w);
                check(want, masks, "expansion");
            } else {
                std::vector<uint64_t> ev;
                std::vector<int> evi;
                for (int i = 0; i < g.n; i++) if (r.chance(40) && ev.size() < 10) { ev.push_back(i); evi.push_back(i); }
                std::string s = "decode";
                for (auto e : ev) s += " " + std::to_string(e);
                add_case(s + "\n");
                if (ev.size() > 2) n_nontrivial++;
                auto [best, masks] = O.match(evi);
                if (r.chance(70) || g.nobs > 64) {
                    bool th = throws([&] { decode_detection_events(m, ev, out.data(), w, false); });
                    if (th != (best >= INF)) fail(th ? "decoding failed although a matching exists" : "decoding succeeded although no matching exists");
                    if (!th) check(best, masks, "decoding");
                } else {
                    MatchingResult res;
                    bool th = throws([&] { res = decode_detection_events_for_up_to_64_observables(m, ev, false); });
                    if (th != (best >= INF)) fail(th ? "decoding failed although a matching exists" : "decoding succeeded although no matching exists");
                    if (!th && (res.weight != best || g.comp64(res.obs_mask) < 0 || !(masks >> g.comp64(res.obs_mask) & 1))) fail("mask decoding returned the wrong weight or observables");
                }
            }
        }
    }
    return run.done();
}
