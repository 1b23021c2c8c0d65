// C17: which detection events are decoded, and how the parts of a result are put together.
#include "decode.h"
#define A Mwpm *m, const Events *e, u64 gn, u64 gd, bool valid
EVENTS(c17_events)
VC void c17_events(A) { events(m, e, gn, gd, valid, false); }
#undef A
#define A Mwpm *m, const Events *e, u64 gd
TAKE(c17_take)
VC void c17_take(A) { take(m, e, gd); }
TAKE(c17_take_edges)
VC void c17_take_edges(A) { take_edges(m, e, gd); }
#undef A
// ---------------------------------------------------------------- combining the parts of a result
// Specification variables: gi an arbitrary observable. vc_fn1(5, 0|1), vc_fn1(6, 0|1): observables and weight of the
// matching taken out for the given events | for the events of negative edges; vc_fn1(7, 0): whether the expanded
// matched pairs cross gi an odd number of times; vc_fn1(8, 0): their weight; vc_fn1(9, j): parity of the number of
// times gi is among the first j observables of negative edges.
struct GhostR { u64 m, d, edges, reweighted, undone, timeline, given, negs, bad, gi, paths; };
static inline GhostR *gr() { return (GhostR *)vc_ghost(); }
static inline void note(bool wrong) { gr()->bad = gr()->bad | (u64)vc_sel(wrong, 1, 0); }
VC void contract_to_edges(Mwpm *m, const std::vector<uint64_t> *d, std::vector<int64_t> *edges) {
    note((U(m) != gr()->m) | (U(d) != gr()->d) | (gr()->timeline != 0) | (gr()->edges != 0));
    gr()->edges = U(edges);
}
static inline void reweighted(u64 bit, const void *edges) {
    note((gr()->edges != U(edges)) | (gr()->timeline != 0) | ((gr()->reweighted & bit) != 0));
    gr()->reweighted = gr()->reweighted | bit;
}
VC void contract_reweight(MatchingGraph *g, const void *edges) { note(U(g) != U(&((Mwpm *)gr()->m)->flooder.graph)); reweighted(1, edges); }
VC void contract_sreweight(SearchGraph *g, const void *edges) { note(U(g) != U(&((Mwpm *)gr()->m)->search_flooder.graph)); reweighted(2, edges); }
static inline void undone(u64 bit) {
    note(gr()->given == 0);
    gr()->undone = gr()->undone | bit;
}
VC void contract_undo(MatchingGraph *g) { note(U(g) != U(&((Mwpm *)gr()->m)->flooder.graph)); undone(1); }
VC void contract_sundo(SearchGraph *g) { note(U(g) != U(&((Mwpm *)gr()->m)->search_flooder.graph)); undone(2); }
VC void contract_timeline(Mwpm *m, const std::vector<uint64_t> *d) {
    note((U(m) != gr()->m) | (U(d) != gr()->d) | (gr()->timeline != 0));
    gr()->timeline = 1;
}
static inline bool taken(Mwpm *m, const std::vector<uint64_t> *d) {
    bool given = U(d) == gr()->d, negative = U(d) == U(&((Mwpm *)gr()->m)->flooder.negative_weight_detection_events);
    note((U(m) != gr()->m) | (gr()->timeline == 0) | (gr()->undone != 0) | !(given | negative) | (given & (gr()->given != 0)) | (negative & (gr()->negs != 0)));
    gr()->given = gr()->given + (u64)vc_sel(given, 1, 0);
    gr()->negs = gr()->negs + (u64)vc_sel(given, 0, 1);
    return given;
}
VC Part contract_take(Mwpm *m, const std::vector<uint64_t> *d) {
    bool given = taken(m, d);
    Part r;
    r.obs = (u64)vc_sel(given, vc_fn1(5, 0), vc_fn1(5, 1));
    r.weight = (u64)vc_sel(given, vc_fn1(6, 0), vc_fn1(6, 1));
    return r;
}
VC void contract_take_edges(Mwpm *m, const std::vector<uint64_t> *d) {
    note((gr()->given == 0) & (gr()->negs == 0) & (m->flooder.match_edges.size() != 0));
    taken(m, d);
}
VC void contract_paths(Mwpm *m, const void *edges, uint8_t *out, total_weight_int *w) {
    note((U(m) != gr()->m) | (U(edges) != U(&((Mwpm *)gr()->m)->flooder.match_edges)) | (gr()->given == 0) | (gr()->paths != 0));
    gr()->paths = 1;
    out[gr()->gi] = (uint8_t)(out[gr()->gi] ^ (vc_fn1(7, 0) & 1));
    *w = (total_weight_int)((u64)*w + vc_fn1(8, 0));
}
VC void contract_fill(u64 mask, uint8_t *out, u64 n) {
    u64 i = gr()->gi;
    out[i] = (uint8_t)(out[i] ^ vc_sel(i < n, (mask >> (i & 63)) & 1, 0));
}
static inline void begin(Mwpm *m, const Events *e) {
    GhostR *g = gr();
    g->m = U(m); g->d = U(&e->d); g->edges = 0; g->reweighted = 0; g->undone = 0; g->timeline = 0; g->given = 0; g->negs = 0; g->bad = 0; g->paths = 0;
}
static inline bool ordered(Mwpm *m, bool corr) {
    GhostR *g = gr();
    return (g->bad == 0) & (g->timeline == 1) & (g->given == 1) & ((g->negs == 1) | (neg(m).size() == 0)) & (g->reweighted == (u64)vc_sel(corr, 3, 0)) & (g->undone == (u64)vc_sel(corr, 3, 0));
}
#define NEGOBS(m, k) (u64)vc_sel(gr()->negs != 0, vc_fn1(k, 1), 0)
VC void c17_mask(Mwpm *m, const Events *e, bool corr) {
    vc_assume((m != nullptr) & (e != nullptr));
    vc_assume(U(&e->d) != U(&m->flooder.negative_weight_detection_events));
    begin(m, e);
    u64 o = m->flooder.negative_weight_obs_mask, w = (u64)m->flooder.negative_weight_sum;
    vc_snapshot();
    MatchingResult r = decode_detection_events_for_up_to_64_observables(*m, e->d, corr);
    vc_check(r.obs_mask == (vc_fn1(5, 0) ^ NEGOBS(m, 5) ^ o), "observables: of both parts of the matching and of the negative edges");
    vc_check((u64)r.weight == vc_fn1(6, 0) + NEGOBS(m, 6) + w, "weight: of both parts of the matching plus the total of the negative edges");
    vc_check(ordered(m, corr), "events are decoded once, on reweighted graphs if asked to, which are restored afterwards");
    vc_cover("reach");
}
#define A Mwpm *m, const Events *e, uint8_t *out, total_weight_int *w, bool corr, u64 gi
static inline u64 npar(u64 j) { return vc_fn1(9, j) & 1; }
static inline const std::vector<size_t> &nobs(Mwpm *m) { return m->flooder.negative_weight_observables; }
VC bool c17_bits__fmlStep(A, u64 j) { return (j >= nobs(m).size()) | (npar(j + 1) == (npar(j) ^ (u64)vc_sel(nobs(m)[j] == gi, 1, 0))); }
VC bool c17_bits__invNeg(A, u64 i) { vc_old(true); uint8_t o = out[gi]; vc_old(false); return out[gi] == (uint8_t)(o ^ (vc_fn1(7, 0) & 1) ^ npar(i)); }
VC void c17_bits(A) {
    vc_assume((m != nullptr) & (e != nullptr) & (out != nullptr) & (w != nullptr) & (gi < (1ull << 40)));
    vc_assume(U(&e->d) != U(&m->flooder.negative_weight_detection_events));
    vc_assume_all("Step");
    vc_assume(npar(0) == 0);
    begin(m, e);
    gr()->gi = gi;
    u64 o = m->flooder.negative_weight_obs_mask, s = (u64)m->flooder.negative_weight_sum, w0 = (u64)*w, n = m->flooder.graph.num_observables;
    uint8_t old = out[gi];
    vc_snapshot();
    decode_detection_events(*m, e->d, out, *w, corr);
    if (n > 64) {
        vc_check(out[gi] == (uint8_t)(old ^ (vc_fn1(7, 0) & 1) ^ npar(nobs(m).size())), "an observable flips once per crossing of the expanded pairs and of the negative edges");
        vc_check((u64)*w == w0 + vc_fn1(8, 0) + s, "the weight grows by that of the expanded pairs and the total of the negative edges");
        vc_check(gr()->paths == 1, "the matched pairs are expanded once");
        vc_cover("many");
    } else {
        u64 all = vc_fn1(5, 0) ^ NEGOBS(m, 5) ^ o;
        vc_check(out[gi] == (uint8_t)(old ^ vc_sel(gi < n, (all >> (gi & 63)) & 1, 0)), "an observable flips if both parts of the matching and the negative edges cross it an odd number of times");
        vc_check((u64)*w == w0 + vc_fn1(6, 0) + NEGOBS(m, 6) + s, "the weight grows by both parts and the total of the negative edges");
        vc_cover("few");
    }
    vc_check(ordered(m, corr), "events are decoded once, on reweighted graphs if asked to, which are restored afterwards");
}
#undef A
VC void c17_pairs(Mwpm *m, const Events *e) {
    vc_assume((m != nullptr) & (e != nullptr));
    vc_assume(U(&e->d) != U(&m->flooder.negative_weight_detection_events));
    begin(m, e);
    bool negative = m->flooder.negative_weight_sum != 0;
    vc_snapshot();
    try {
        decode_detection_events_to_match_edges(*m, e->d);
    } catch (...) {
        vc_check(negative & (gr()->timeline == 0), "only graphs with negative edges are rejected");
        vc_cover("rejected");
        return;
    }
    vc_check(!negative, "graphs with negative edges are rejected");
    vc_check((gr()->bad == 0) & (gr()->timeline == 1) & (gr()->given == 1), "the pairs of this decode, and only they, are listed");
    vc_cover("reach");
}
