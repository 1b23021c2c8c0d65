// C14: results, masks and the observables of a path edge.
#include <iostream>
#include <stdexcept>
#include "pymatching/sparse_blossom/matcher/mwpm.h"
#include "pymatching/sparse_blossom/driver/mwpm_decoding.h"
#include "vc.h"
using namespace pm;
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
// ---------------------------------------------------------------- results
VC void c14_result_add(MatchingResult *a, const MatchingResult *b) {
    vc_assume((a != nullptr) & (b != nullptr) & (a != b));
    obs_int oa = a->obs_mask, ob = b->obs_mask;
    total_weight_int wa = a->weight, wb = b->weight;
    vc_snapshot();
    MatchingResult &r = (*a += *b);
    vc_check(U(&r) == U(a), "the sum is the left operand");
    vc_check((a->obs_mask == (oa ^ ob)) & (a->weight == (total_weight_int)((u64)wa + (u64)wb)), "observables are combined by parity and weights are added");
    vc_writes(&a->obs_mask, sizeof(a->obs_mask));
    vc_writes(&a->weight, sizeof(a->weight));
    vc_frame("result +=");
    vc_cover("reach");
}
VC void c14_result_sum(const MatchingResult *a, const MatchingResult *b) {
    vc_assume((a != nullptr) & (b != nullptr));
    vc_snapshot();
    MatchingResult r = *a + *b;
    vc_check((r.obs_mask == (a->obs_mask ^ b->obs_mask)) & (r.weight == (total_weight_int)((u64)a->weight + (u64)b->weight)), "observables are combined by parity and weights are added");
    vc_frame("result +");
    vc_cover("reach");
}
VC void c14_result_new(u64 o, total_weight_int w) {
    MatchingResult e, f(o, w);
    vc_check((e.obs_mask == 0) & (e.weight == 0), "an empty result is neutral");
    vc_check((f.obs_mask == o) & (f.weight == w), "a result holds what it is given");
    vc_check((e == f) == ((o == 0) & (w == 0)), "results are equal if both parts are");
    vc_cover("reach");
}
// ---------------------------------------------------------------- masks
#define A u64 mask, uint8_t *out, size_t n, u64 gi
static inline u64 bit(u64 m, u64 i) { return (m >> (i & 63)) & 1; }
VC bool c14_fill__invDone(A, u64 i) {
    vc_old(true);
    uint8_t o = out[gi];
    vc_old(false);
    return out[gi] == (uint8_t)(o ^ (uint8_t)vc_sel(gi < i, bit(mask, gi), 0));
}
VC void c14_fill(A) {
    vc_assume((out != nullptr) & (gi < (1ull << 40)));
    uint8_t o = out[gi];
    vc_snapshot();
    try {
        fill_bit_vector_from_obs_mask(mask, out, n);
    } catch (...) {
        vc_check(n > 64, "only more than 64 observables are rejected");
        vc_cover("rejected");
        return;
    }
    vc_check(n <= 64, "more than 64 observables are rejected");
    vc_check(out[gi] == (uint8_t)(o ^ (uint8_t)vc_sel(gi < n, bit(mask, gi), 0)), "each bit of the mask flips its own entry; nothing else changes");
    vc_cover("reach");
}
#undef A
struct Bits { std::vector<uint8_t> b; };
#define A const Bits *s, u64 gi
VC bool c14_mask__fmlBits(A, u64 i) { return (i >= s->b.size()) | (s->b[i] <= 1); }
VC bool c14_mask__invDone(A, u64 m, u64 i) { return (gi > 63) | (bit(m, gi) == (u64)vc_sel(gi < i, s->b[gi], 0)); }
VC void c14_mask(A) {
    vc_assume((s != nullptr) & (gi < 64));
    vc_assume_all("Bits");
    vc_snapshot();
    u64 m;
    try {
        m = bit_vector_to_obs_mask(s->b);
    } catch (...) {
        vc_check(s->b.size() > 64, "only more than 64 observables are rejected");
        vc_cover("rejected");
        return;
    }
    vc_check(s->b.size() <= 64, "more than 64 observables are rejected");
    vc_check(bit(m, gi) == (u64)vc_sel(gi < s->b.size(), s->b[gi], 0), "bit i of the mask is entry i");
    vc_frame("mask");
    vc_cover("reach");
}
#undef A
// ---------------------------------------------------------------- expanding matched pairs
// vc_fn3(1, n, i, j): parity of the number of times observable gi is among the first j observables of edge i of node n
struct Ghost14 { u64 sum, par, before, node, index, m, s, calls; };
static inline Ghost14 *gs() { return (Ghost14 *)vc_ghost(); }
static inline const std::vector<size_t> &obs_of(u64 n, u64 i) { return ((SearchDetectorNode *)n)->neighbor_observable_indices[i]; }
static inline u64 weight_of(u64 n, u64 i) { return (u64)(int64_t)((SearchDetectorNode *)n)->neighbor_weights[i]; }
static inline u64 par(u64 n, u64 i, u64 j) { return vc_fn3(1, n, i, j) & 1; }
struct Matched { std::vector<CompressedEdge> edges; };
VC void contract_path(SearchFlooder *f, u64 src, u64 dst, u64 e) {
    // the next matched pair is expanded
    Mwpm *m = (Mwpm *)gs()->m;
    const CompressedEdge &ce = ((const Matched *)gs()->s)->edges[gs()->calls];
    const DetectorNode *from = ce.loc_from, *to = ce.loc_to, *first = &m->flooder.graph.nodes[0];
    vc_check(U(f) == U(&m->search_flooder), "the decoder's own search is used");
    vc_check((src == (u64)(from - first)) & (dst == (u64)vc_sel(to == nullptr, -1, to - first)), "the path runs between the two ends of the matched pair");
    gs()->calls = gs()->calls + 1;
    const SearchGraphEdge *edge = (const SearchGraphEdge *)e;
    u64 n = U(edge->detector_node), i = edge->neighbor_index;
    vc_assume((e != 0) & (n != 0) & (i < ((SearchDetectorNode *)n)->neighbors.size()));
    vc_assume((((SearchDetectorNode *)n)->neighbor_weights.size() == ((SearchDetectorNode *)n)->neighbors.size()) & (((SearchDetectorNode *)n)->neighbor_observable_indices.size() == ((SearchDetectorNode *)n)->neighbors.size()));
    Ghost14 *g = gs();
    g->sum = g->sum + weight_of(n, i);
    g->before = g->par;
    g->node = n;
    g->index = i;
    g->par = g->par ^ par(n, i, obs_of(n, i).size());
}
#define A Mwpm *m, const Matched *s, uint8_t *out, total_weight_int *w, u64 gi
VC bool c14_paths__fmlNone(A, u64 n, u64 i) { return par(n, i, 0) == 0; }
VC bool c14_paths__fmlStep(A, u64 n, u64 i, u64 j) { return (j >= obs_of(n, i).size()) | (par(n, i, j + 1) == (par(n, i, j) ^ (u64)vc_sel(obs_of(n, i)[j] == gi, 1, 0))); }
VC bool c14_paths__invSum(A) { vc_old(true); u64 w0 = (u64)*w; vc_old(false); return (u64)*w == w0 + gs()->sum; }
VC bool c14_paths__invPar(A) { vc_old(true); uint8_t o = out[gi]; vc_old(false); return out[gi] == (uint8_t)(o ^ (uint8_t)gs()->par); }
VC bool c14_paths__invCalls(A, u64 i) { return (gs()->calls == i) & (i <= s->edges.size()); }
VC bool c14_paths__invPart(A, u64 j) {
    Ghost14 *g = gs();
    vc_old(true);
    uint8_t o = out[gi];
    vc_old(false);
    return out[gi] == (uint8_t)(o ^ (uint8_t)(g->before ^ par(g->node, g->index, j)));
}
VC void c14_paths(A) {
    vc_assume((m != nullptr) & (s != nullptr) & (out != nullptr) & (w != nullptr) & (gi < (1ull << 40)));
    vc_assume_all("None");
    vc_assume_all("Step");
    gs()->sum = 0; gs()->par = 0; gs()->calls = 0; gs()->m = U(m); gs()->s = U(s);
    u64 w0 = (u64)*w;
    uint8_t o = out[gi];
    vc_snapshot();
    m->extract_paths_from_match_edges(s->edges, out, *w);
    vc_check(gs()->calls == s->edges.size(), "every matched pair is expanded once");
    vc_check((u64)*w == w0 + gs()->sum, "every path edge adds its weight once");
    vc_check(out[gi] == (uint8_t)(o ^ (uint8_t)gs()->par), "every path edge flips an observable once per crossing, whatever the output holds");
    vc_cover("reach");
}
#undef A
