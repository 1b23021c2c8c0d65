// C11: correlated reweighting and undo.
// Specification variables: gp an arbitrary weight (address), gi an arbitrary implied weight, gf a position in the log.
// vc_fn1(1, a): the other direction of the edge whose weight is at a;  vc_fn1(2, a): weight before the first reweighting
#include "flood.h"
typedef uint64_t u64;
#define U(p) ((u64)(uintptr_t)(p))
typedef std::vector<ImpliedWeight> Rules;
typedef std::vector<PreviousWeight> Log;
static inline uint32_t w(u64 a) { return *(weight_int *)a; }
static inline u64 e0(const Rules *v, u64 i) { return U((*v)[i].edge0_ptr); }
static inline u64 e1(const Rules *v, u64 i) { return U((*v)[i].edge1_ptr); }
static inline uint32_t nw(const Rules *v, u64 i) { return (*v)[i].implied_weight; }
static inline u64 lp(const Log *l, u64 k) { return U((*l)[k].ptr); }
static inline uint32_t lv(const Log *l, u64 k) { return (*l)[k].val; }

struct Env { Rules rules; Log log; };
#define v (&env->rules)
#define l (&env->log)
#define A Env *env, u64 gp, u64 gi, u64 gf
// every rule names both directions of one edge (or a boundary edge), and the directions have equal weights
VC bool c11_apply__fmlPaired(A, u64 i) {
    return (i >= v->size()) | ((e0(v, i) != 0) & (vc_fn1(1, e0(v, i)) == e1(v, i)) & ((e1(v, i) == 0) | (vc_fn1(1, e1(v, i)) == e0(v, i))));
}
VC bool c11_apply__allEqual(A, u64 i) { return (i >= v->size()) | (e1(v, i) == 0) | (w(e0(v, i)) == w(e1(v, i))); }
VC bool c11_apply__fmlNotFrom(A, u64 j) { return (j >= v->size()) | (((e0(v, j) != gp) & (e1(v, j) != gp)) | (nw(v, j) != w(gp))); }
VC bool c11_apply__fmlNotLogged(A, u64 k) { return (k >= l->size()) | (lp(l, k) != gp); }
VC bool c11_apply__fmlNoneBefore(A, u64 k) { return (k >= gf) | (lp(l, k) != gp); }
VC bool c11_apply__invLower(A) { vc_old(true); uint32_t o = w(gp); vc_old(false); return w(gp) <= o; }
VC bool c11_apply__invFrom(A) { vc_old(true); uint32_t o = w(gp); vc_old(false); return (w(gp) == o) | !vc_all("NotFrom"); }
VC bool c11_apply__invDone(A, u64 i) { return (gi >= i) | ((w(e0(v, gi)) <= nw(v, gi)) & ((e1(v, gi) == 0) | (w(e1(v, gi)) <= nw(v, gi)))); }
VC bool c11_apply__invUnlogged(A) { return !vc_all("NotLogged") | (w(gp) == (uint32_t)vc_fn1(2, gp)); }
VC bool c11_apply__invFirst(A) { return (gf >= l->size()) | (lp(l, gf) != gp) | !vc_all("NoneBefore") | (lv(l, gf) == (uint32_t)vc_fn1(2, gp)); }
VC bool c11_apply__invRules(A, u64 i) { return i <= v->size(); }
VC void c11_apply(A) {
    vc_assume(gi < v->size());
    vc_assume(gp != 0);
    vc_assume_all("Paired");
    vc_assume_all("Equal");
    // the log records the history so far: the first entry of a weight is its original value
    vc_assume(!vc_all("NotLogged") | (w(gp) == (uint32_t)vc_fn1(2, gp)));
    vc_assume((gf >= l->size()) | (lp(l, gf) != gp) | !vc_all("NoneBefore") | (lv(l, gf) == (uint32_t)vc_fn1(2, gp)));
    uint32_t old = w(gp);
    vc_snapshot();
    apply_reweights(*v, *l);
    vc_check(w(gp) <= old, "no weight is raised");
    vc_check((w(gp) == old) | !vc_all("NotFrom"), "a weight changes only to a weight implied for its own edge");
    vc_check((w(e0(v, gi)) <= nw(v, gi)) & ((e1(v, gi) == 0) | (w(e1(v, gi)) <= nw(v, gi))), "a lower implied weight is applied, in both directions");
    vc_check_all("Equal", "both directions of an edge keep equal weights");
    vc_check(!vc_all("NotLogged") | (w(gp) == (uint32_t)vc_fn1(2, gp)), "a weight without a log entry has its original value");
    vc_check((gf >= l->size()) | (lp(l, gf) != gp) | !vc_all("NoneBefore") | (lv(l, gf) == (uint32_t)vc_fn1(2, gp)), "the first log entry of a weight is its original value");
    vc_cover("reach");
}
#undef A
#undef v
#undef l
#define A MatchingGraph *g, u64 gp, u64 gf
#define L (&g->previous_weights)
VC bool c11_undo_logged__fmlNoneBefore(A, u64 k) { return (k >= gf) | (lp(L, k) != gp); }
VC bool c11_undo_logged__invBack(A, u64 i) { return (i > gf) | (w(gp) == lv(L, gf)); }
VC bool c11_undo_logged__invFore(A, u64 i) { return (gf < i) | (w(gp) == lv(L, gf)); }
VC void c11_undo_logged(A) {
    vc_assume(gf < L->size());
    vc_assume(lp(L, gf) == gp);
    vc_assume_all("NoneBefore");
    uint32_t orig = lv(L, gf);       // the first entry holds the original value (c11_apply)
    vc_snapshot();
    g->undo_reweights();
    vc_check(w(gp) == orig, "undo restores the weight held before the first reweighting");
    vc_check(L->size() == 0, "nothing is left to undo");
    vc_cover("reach");
}
VC bool c11_undo_other__fmlNotLogged(A, u64 k) { return (k >= L->size()) | (lp(L, k) != gp); }
VC bool c11_undo_other__invSame(A) { vc_old(true); uint32_t o = w(gp); vc_old(false); return w(gp) == o; }
VC void c11_undo_other(A) {
    vc_assume_all("NotLogged");
    uint32_t old = w(gp);
    vc_snapshot();
    g->undo_reweights();
    vc_check(w(gp) == old, "undo leaves every other weight alone");
    vc_check(L->size() == 0, "nothing is left to undo");
    vc_cover("reach");
}
#undef A
VC bool c11_index_of_neighbor__invNone(DetectorNode *n, DetectorNode *t, u64 gi, u64 k) { return (gi >= k) | (U(n->neighbors[gi]) != U(t)); }
VC void c11_index_of_neighbor(DetectorNode *n, DetectorNode *t, u64 gi) {
    vc_assume(gi < n->neighbors.size());
    vc_snapshot();
    u64 r;
    try {
        r = n->index_of_neighbor(t);
    } catch (...) {
        vc_check(U(n->neighbors[gi]) != U(t), "a neighbour that is there is found");
        vc_cover("throws");
        return;
    }
    vc_check(r < n->neighbors.size() && U(n->neighbors[r]) == U(t), "the position found is that neighbour's");
    vc_check(gi >= r || U(n->neighbors[gi]) != U(t), "the first such position is found");
    vc_frame("index_of_neighbor");
    vc_cover("reach");
}
VC size_t contract_index_of(const DetectorNode *n, DetectorNode *t) {
    G()->node = U(n);
    G()->node2 = U(t);
    return G()->idx;
}
VC void contract_apply(std::vector<ImpliedWeight> *r, std::vector<PreviousWeight> *p) {
    MatchingGraph *g = (MatchingGraph *)G()->region;
    G()->calls = G()->calls + 1;
    G()->k = (r == &g->nodes[G()->child].neighbor_implied_weights[G()->idx]) & (p == &g->previous_weights);
}
VC void c11_reweight_for_edge(MatchingGraph *g, int64_t u, int64_t v) {
    vc_assume((u >= 0) & ((u64)u < g->nodes.size()) & (v >= -1) & ((v == -1) | ((u64)v < g->nodes.size())));
    vc_assume(G()->idx < g->nodes[u].neighbor_implied_weights.size());
    G()->region = U(g);
    G()->child = (u64)u;
    G()->calls = 0;
    vc_snapshot();
    g->reweight_for_edge(u, v);
    vc_check(G()->node == U(&g->nodes[u]) && G()->node2 == (v == -1 ? 0 : U(&g->nodes[v])), "the edge between these endpoints (or to the boundary) is looked up");
    vc_check(G()->calls == 1 && G()->k == 1, "exactly that edge's implied weights are applied, to this graph's log");
    vc_frame("reweight_for_edge");
    vc_cover("reach");
}
