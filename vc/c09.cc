// C09: the matcher keeps every region in exactly one state.
#include "flood.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
typedef uint64_t u64;
typedef GraphFillRegion Region;
typedef AltTreeNode Tree;
#define U(p) ((u64)(uintptr_t)(p))
static inline bool same(const CompressedEdge &a, const CompressedEdge &b) { return (U(a.loc_from) == U(b.loc_from)) & (U(a.loc_to) == U(b.loc_to)) & (a.obs_mask == b.obs_mask); }
static inline bool rev(const CompressedEdge &a, const CompressedEdge &b) { return (U(a.loc_from) == U(b.loc_to)) & (U(a.loc_to) == U(b.loc_from)) & (a.obs_mask == b.obs_mask); }
static inline bool matched(const Region *a, const Region *b, const CompressedEdge &e) {
    return (U(a->match.region) == U(b)) & (U(b->match.region) == U(a)) & same(a->match.edge, e) & rev(b->match.edge, e);
}
// Ghost state.  Regions the contract talks about: R(0..3); direction calls on R(i) are counted in gs()->dir[i]
struct Ghost9 {
    u64 r[4];           // regions watched
    u64 frozen[4], growing[4], shrinking[4], freed[4];
    u64 root[2];        // tree nodes watched
    u64 rooted[2], shattered[2], released[2];
    u64 calls, last, a, b, c, d, k, n;
    u64 e1f, e1t, e1o, e2f, e2t, e2o;
    u64 cleared[4], settled[4], pairs[4], gi, after, cleaned[4], sumw, sumo, loc, sub, list;
    u64 bl, alt, size, pi, ci, gap, even, len, erased, area, node, added;
};
static inline Ghost9 *gs() { return (Ghost9 *)vc_ghost(); }
static inline void bump(u64 *p, bool c) { *p = *p + (u64)vc_sel(c, 1, 0); }
#define BUMP4(what, x) bump(&gs()->what[0], (x) == gs()->r[0]); bump(&gs()->what[1], (x) == gs()->r[1]); bump(&gs()->what[2], (x) == gs()->r[2]); bump(&gs()->what[3], (x) == gs()->r[3]);
#define BUMP2(what, x) bump(&gs()->what[0], (x) == gs()->root[0]); bump(&gs()->what[1], (x) == gs()->root[1]);
static inline void watch(int i, const Region *r) {
    Ghost9 *g = gs();
    g->r[i] = U(r);
    g->frozen[i] = 0;
    g->growing[i] = 0;
    g->shrinking[i] = 0;
    g->freed[i] = 0;
}
static inline void watch_tree(int i, const Tree *t) {
    Ghost9 *g = gs();
    g->root[i] = U(t);
    g->rooted[i] = 0;
    g->shattered[i] = 0;
    g->released[i] = 0;
}
// ---------------------------------------------------------------- contracts of callees
// (C07) direction changes
#define DIR(what)                                                        \
    VC void contract_##what(GraphFlooder *f, Region *r) {                \
        BUMP4(what, U(r))                                                \
    }
DIR(frozen)
DIR(growing)
DIR(shrinking)
// (C08) re-rooting: the node becomes a root without inner region
VC void contract_become_root(Tree *t) {
    BUMP2(rooted, U(t))
    t->parent.alt_tree_node = nullptr;
    t->inner_region = nullptr;
}
// (c09_shatter_descendants) the tree below a root dissolves; the root's outer region leaves the tree unmatched
VC void contract_shatter(Mwpm *m, Tree *t) {
    vc_check(t->parent.alt_tree_node == nullptr, "only a root's tree is dissolved");
    BUMP2(shattered, U(t))
    t->outer_region->alt_tree_node = nullptr;
}
VC void contract_shatter_child(Mwpm *m, Tree *t) {
    bump(&gs()->calls, U(t) == gs()->a);
}
VC void contract_del_tree(Arena<Tree> *a, Tree *t) {
    BUMP2(released, U(t))
    gs()->n = gs()->n + 1;
}
VC void contract_del_region(Arena<Region> *a, Region *r) {
    BUMP4(freed, U(r))
    gs()->n = gs()->n + 1;
}
VC Tree *contract_alloc_tree(Arena<Tree> *a) {
    gs()->calls = gs()->calls + 1;
    return (Tree *)gs()->a;
}
VC Region *contract_alloc_region(Arena<Region> *a) {
    gs()->k = gs()->k + 1;
    Region *r = (Region *)gs()->b;
    return r;
}
VC void contract_created(GraphFlooder *f, Region *r, DetectorNode *n) {
    gs()->n = gs()->n + 1;
    gs()->c = U(r);
    gs()->d = U(n);
}
// (c09_make_child)
VC Tree *contract_make_child(Mwpm *m, Tree *parent, Region *inner, Region *outer, const CompressedEdge *io, const CompressedEdge *e) {
    Ghost9 *g = gs();
    g->calls = g->calls + 1;
    g->a = U(parent);
    g->b = U(inner);
    g->c = U(outer);
    g->e1f = U(io->loc_from); g->e1t = U(io->loc_to); g->e1o = io->obs_mask;
    g->e2f = U(e->loc_from); g->e2t = U(e->loc_to); g->e2o = e->obs_mask;
    Tree *t = (Tree *)g->last;
    inner->alt_tree_node = t;
    outer->alt_tree_node = t;
    return t;
}
// ---------------------------------------------------------------- matching two regions
VC void c09_add_match(Region *a, Region *b, const CompressedEdge *e) {
    vc_assume(U(a) != U(b));
    vc_snapshot();
    vc_writes(&a->match, sizeof(Match));
    vc_writes(&b->match, sizeof(Match));
    CompressedEdge x = *e;
    a->add_match(b, x);
    vc_check(matched(a, b, x), "the two regions are matched to each other along the edge and its reverse");
    vc_frame("add_match");
    vc_cover("reach");
}
// ---------------------------------------------------------------- a tree dissolves
VC bool c09_shatter_descendants__invKids(Mwpm *m, Tree *t, u64 gc, u64 i) { return (gc >= i) | (gs()->calls >= 1); }
VC bool c09_shatter_descendants__invCount(Mwpm *m, Tree *t, u64 gc, u64 i) { return (gs()->calls <= i) & (i <= (1ull << 62)); }
VC bool c09_shatter_descendants__invNone(Mwpm *m, Tree *t, u64 gc) {
    Ghost9 *g = gs();
    return (g->frozen[0] == 0) & (g->frozen[1] == 0) & (g->released[0] == 0) & (g->n == 0);
}
VC void c09_shatter_descendants(Mwpm *m, Tree *t, u64 gc) {
    vc_assume(gc < t->children.size());
    Region *in = t->inner_region, *out = t->outer_region;
    vc_assume((out != nullptr) & (U(in) != U(out)));
    gs()->a = U(t->children[gc].alt_tree_node);
    gs()->calls = 0;
    gs()->n = 0;
    watch(0, in);
    watch(1, out);
    watch_tree(0, t);
    CompressedEdge e = t->inner_to_outer_edge;
    vc_snapshot();
    m->shatter_descendants_into_matches_and_freeze(*t);
    Ghost9 *g = gs();
    vc_check(g->calls >= 1, "the subtree below every child is dissolved");
    vc_check(g->released[0] == 1 && g->n == 1, "the tree node is returned once");
    vc_check(out->alt_tree_node == nullptr, "the outer region is in no tree");
    if (in != nullptr) {
        vc_check(in->alt_tree_node == nullptr, "the inner region is in no tree");
        vc_check(matched(in, out, e), "inner and outer region are matched to each other along their edge");
        vc_check(g->frozen[0] == 1 && g->frozen[1] == 1, "both are frozen");
    } else {
        vc_check(g->frozen[1] == 0, "the root's region is left to the caller");
    }
    vc_cover("reach");
}
// ---------------------------------------------------------------- a tree reaches the boundary
VC void c09_boundary(Mwpm *m, Region *r, CompressedEdge *e) {
    Tree *t = r->alt_tree_node;
    vc_assume((t != nullptr) & (U(t->outer_region) == U(r)));
    watch(0, r);
    watch_tree(0, t);
    CompressedEdge x = *e;
    RegionHitBoundaryEventData ev{r, x};
    vc_snapshot();
    m->handle_tree_hitting_boundary(ev);
    Ghost9 *g = gs();
    vc_check(g->rooted[0] >= 1 && g->shattered[0] == 1, "the tree is rooted at the region and dissolved once");
    vc_check(r->match.region == nullptr && same(r->match.edge, x), "the region is matched to the boundary along the edge reported");
    vc_check(g->frozen[0] == 1, "the region is frozen");
    vc_check(r->alt_tree_node == nullptr, "the region is in no tree");
    vc_cover("reach");
}
VC void c09_boundary_match(Mwpm *m, Region *r, Region *o, CompressedEdge *e) {
    Tree *t = r->alt_tree_node;
    vc_assume((t != nullptr) & (U(t->outer_region) == U(r)) & (U(r) != U(o)) & (o->alt_tree_node == nullptr));
    watch(0, r);
    watch(1, o);
    watch_tree(0, t);
    CompressedEdge x = *e;
    vc_snapshot();
    m->handle_tree_hitting_boundary_match(r, o, x);
    Ghost9 *g = gs();
    vc_check(g->rooted[0] >= 1 && g->shattered[0] == 1, "the tree is rooted at the region and dissolved once");
    vc_check(matched(r, o, x), "the two regions are matched to each other along the edge");
    vc_check(g->frozen[0] == 1 && g->growing[1] == 0 && g->shrinking[1] == 0, "both are frozen");
    vc_check(r->alt_tree_node == nullptr && o->alt_tree_node == nullptr, "neither is in a tree");
    vc_cover("reach");
}
VC void c09_other_tree(Mwpm *m, RegionHitRegionEventData *ev) {
    Region *r = ev->region1, *o = ev->region2;
    Tree *t = r->alt_tree_node, *q = o->alt_tree_node;
    vc_assume((t != nullptr) & (q != nullptr) & (U(t->outer_region) == U(r)) & (U(q->outer_region) == U(o)) & (U(r) != U(o)) & (U(t) != U(q)));
    watch(0, r);
    watch(1, o);
    watch_tree(0, t);
    watch_tree(1, q);
    RegionHitRegionEventData d = *ev;
    vc_snapshot();
    m->handle_tree_hitting_other_tree(d);
    Ghost9 *g = gs();
    vc_check(g->rooted[0] >= 1 && g->rooted[1] >= 1 && g->shattered[0] == 1 && g->shattered[1] == 1, "both trees are rooted at their regions and dissolved once");
    vc_check(matched(r, o, d.edge), "the two regions are matched to each other along the edge");
    vc_check(g->frozen[0] == 1 && g->frozen[1] == 1, "both are frozen");
    vc_check(r->alt_tree_node == nullptr && o->alt_tree_node == nullptr, "neither is in a tree");
    vc_cover("reach");
}
// ---------------------------------------------------------------- a tree reaches a matched pair
VC void c09_match(Mwpm *m, Region *r, Region *o, CompressedEdge *e) {
    Tree *t = r->alt_tree_node;
    Region *p = o->match.region;
    vc_assume((t != nullptr) & (p != nullptr) & (U(r) != U(o)) & (U(p) != U(o)) & (U(p) != U(r)) & (U(p->match.region) == U(o)));
    watch(0, r);
    watch(1, o);
    watch(2, p);
    watch_tree(0, t);
    gs()->calls = 0;
    CompressedEdge x = *e, y = o->match.edge;
    vc_snapshot();
    m->handle_tree_hitting_match(r, o, x);
    Ghost9 *g = gs();
    vc_check(g->calls == 1 && g->a == U(t) && g->b == U(o) && g->c == U(p), "the pair joins the tree below the region that reached it: the reached one inner, its partner outer");
    vc_check(g->e1f == U(y.loc_from) && g->e1t == U(y.loc_to) && g->e1o == y.obs_mask, "joined to each other along their former match edge");
    vc_check(g->e2f == U(x.loc_from) && g->e2t == U(x.loc_to) && g->e2o == x.obs_mask, "joined to the tree along the edge reported");
    vc_check(o->match.region == nullptr && p->match.region == nullptr, "they are no longer matched");
    vc_check(g->shrinking[1] == 1 && g->growing[1] == 0 && g->frozen[1] == 0, "the inner region shrinks");
    vc_check(g->growing[2] == 1 && g->shrinking[2] == 0 && g->frozen[2] == 0, "the outer region grows");
    vc_check(g->growing[0] == 0 && g->shrinking[0] == 0 && g->frozen[0] == 0 && U(r->alt_tree_node) == U(t), "the region that reached them stays as it is");
    vc_cover("reach");
}
VC void c09_make_child(Mwpm *m, Tree *p, Region *in, Region *out, CompressedEdge *io, CompressedEdge *e, u64 gi) {
    Tree *t = (Tree *)gs()->a;
    u64 n = p->children.size();
    vc_assume((gi < n) & (U(t) != U(p)) & (U(in) != U(out)) & (t != nullptr));
    u64 old = U(p->children[gi].alt_tree_node);
    CompressedEdge x = *io, y = *e;
    gs()->calls = 0;
    vc_snapshot();
    Tree *r = m->make_child(*p, in, out, x, y);
    vc_check(gs()->calls == 1 && U(r) == U(t), "one new tree node is taken from the pool and returned");
    vc_check(U(t->inner_region) == U(in) && U(t->outer_region) == U(out) && same(t->inner_to_outer_edge, x), "it holds the two regions and their edge");
    vc_check(U(in->alt_tree_node) == U(t) && U(out->alt_tree_node) == U(t), "both regions are in the tree, at this node");
    vc_check(t->children.size() == 0 && !t->visited, "it starts without children or marks");
    vc_check(p->children.size() == n + 1 && U(p->children[n].alt_tree_node) == U(t) && same(p->children[n].edge, y) && U(p->children[gi].alt_tree_node) == old, "it is added to the parent's children along the edge");
    vc_check(U(t->parent.alt_tree_node) == U(p) && rev(t->parent.edge, y), "its parent link mirrors that, with the edge reversed");
    vc_cover("reach");
}
VC void c09_create_event(Mwpm *m, DetectorNode *n) {
    Tree *t = (Tree *)gs()->a;
    Region *r = (Region *)gs()->b;
    vc_assume((t != nullptr) & (r != nullptr));
    gs()->calls = 0;
    gs()->k = 0;
    gs()->n = 0;
    vc_snapshot();
    m->create_detection_event(n);
    vc_check(gs()->calls == 1 && gs()->k == 1, "one region and one tree node are taken from the pools");
    vc_check(t->inner_region == nullptr && U(t->outer_region) == U(r) && t->parent.alt_tree_node == nullptr && t->children.size() == 0 && !t->visited, "the region is alone in a new tree");
    vc_check(U(r->alt_tree_node) == U(t), "the region knows its tree node");
    vc_check(gs()->n == 1 && gs()->c == U(r) && gs()->d == U(n), "the region starts at the detection event");
    vc_cover("reach");
}
// ---------------------------------------------------------------- which handler
VC Tree *contract_mrca(Tree *a, Tree *b) {
    gs()->a = U(a);
    gs()->b = U(b);
    gs()->n = gs()->n + 1;
    return (Tree *)gs()->last;
}
VC void contract_h_other(Mwpm *m, const RegionHitRegionEventData *d) {
    Ghost9 *g = gs();
    g->calls = g->calls + 1; g->k = 1; g->c = U(d->region1); g->d = U(d->region2);
    g->e1f = U(d->edge.loc_from); g->e1t = U(d->edge.loc_to); g->e1o = d->edge.obs_mask;
}
VC void contract_h_self(Mwpm *m, const RegionHitRegionEventData *d, Tree *anc) {
    contract_h_other(m, d);
    vc_check(U(anc) == gs()->last, "the common ancestor found is used");
    gs()->k = 2;
}
VC void contract_h_match(Mwpm *m, Region *r, Region *o, const CompressedEdge *e) {
    Ghost9 *g = gs();
    g->calls = g->calls + 1; g->k = 3; g->c = U(r); g->d = U(o);
    g->e1f = U(e->loc_from); g->e1t = U(e->loc_to); g->e1o = e->obs_mask;
}
VC void contract_h_bmatch(Mwpm *m, Region *r, Region *o, const CompressedEdge *e) {
    contract_h_match(m, r, o, e);
    gs()->k = 4;
}
VC void c09_dispatch(Mwpm *m, RegionHitRegionEventData *ev) {
    Region *r = ev->region1, *o = ev->region2;
    CompressedEdge x = ev->edge;
    bool t1 = r->alt_tree_node != nullptr, t2 = o->alt_tree_node != nullptr;
    vc_assume(t1 | t2);
    Ghost9 *g = gs();
    g->calls = 0;
    g->n = 0;
    bool m1 = r->match.region != nullptr, m2 = o->match.region != nullptr;
    MwpmEvent e{*ev};
    vc_snapshot();
    m->handle_region_hit_region(e);
    vc_check(g->calls == 1, "exactly one handler runs");
    bool fwd = (g->c == U(r)) & (g->d == U(o)) & (g->e1f == U(x.loc_from)) & (g->e1t == U(x.loc_to)) & (g->e1o == x.obs_mask);
    bool bwd = (g->c == U(o)) & (g->d == U(r)) & (g->e1f == U(x.loc_to)) & (g->e1t == U(x.loc_from)) & (g->e1o == x.obs_mask);
    if (t1 && t2) {
        vc_check(g->n >= 1 && ((g->a == U(r->alt_tree_node) && g->b == U(o->alt_tree_node)) || (g->b == U(r->alt_tree_node) && g->a == U(o->alt_tree_node))), "the common ancestor of the two regions' tree nodes is looked up");
        vc_check(g->k == (g->last == 0 ? 1 : 2), "one tree meeting itself makes a blossom, two trees meeting dissolve");
        vc_check(fwd, "with the regions and edge reported");
    } else {
        vc_check(g->k == ((t1 ? m2 : m1) ? 3 : 4), "a matched region is handled by what it is matched to");
        vc_check(t1 ? fwd : bwd, "the region in the tree comes first, with the edge oriented from it");
    }
    vc_cover("reach");
}
VC void contract_p_rr(Mwpm *m, const MwpmEvent *ev) { contract_h_other(m, &ev->region_hit_region_event_data); gs()->k = 1; }
VC void contract_p_rb(Mwpm *m, const RegionHitBoundaryEventData *d) {
    Ghost9 *g = gs();
    g->calls = g->calls + 1; g->k = 2; g->c = U(d->region);
    g->e1f = U(d->edge.loc_from); g->e1t = U(d->edge.loc_to); g->e1o = d->edge.obs_mask;
}
VC void contract_p_bs(Mwpm *m, const BlossomShatterEventData *d) {
    Ghost9 *g = gs();
    g->calls = g->calls + 1; g->k = 3; g->c = U(d->blossom_region); g->d = U(d->in_parent_region); g->e1f = U(d->in_child_region);
}
VC void c09_process(Mwpm *m, MwpmEvent *ev) {
    uint8_t t = (uint8_t)ev->event_type;
    Ghost9 *g = gs();
    g->calls = 0;
    vc_snapshot();
    try {
        m->process_event(*ev);
    } catch (...) {
        vc_check(t != NO_EVENT && t != REGION_HIT_REGION && t != REGION_HIT_BOUNDARY && t != BLOSSOM_SHATTER, "only an unknown event is rejected");
        return;
    }
    vc_check(g->calls == (t == NO_EVENT ? 0 : 1), "every event is handled once");
    vc_check(t != REGION_HIT_REGION || (g->k == 1 && g->c == U(ev->region_hit_region_event_data.region1) && g->d == U(ev->region_hit_region_event_data.region2) && g->e1o == ev->region_hit_region_event_data.edge.obs_mask), "a collision is handled as one");
    vc_check(t != REGION_HIT_BOUNDARY || (g->k == 2 && g->c == U(ev->region_hit_boundary_event_data.region) && g->e1o == ev->region_hit_boundary_event_data.edge.obs_mask), "reaching the boundary is handled as such");
    vc_check(t != BLOSSOM_SHATTER || (g->k == 3 && g->c == U(ev->blossom_shatter_event_data.blossom_region) && g->d == U(ev->blossom_shatter_event_data.in_parent_region) && g->e1f == U(ev->blossom_shatter_event_data.in_child_region)), "a shattering blossom is handled as such");
    vc_cover("reach");
}
// ---------------------------------------------------------------- a tree reaches itself: a blossom is formed
struct Env {
    std::vector<RegionEdge> p1, p2;
    std::vector<AltTreeEdge> o1, o2;
};
// (C08) pruning a path: returns the regions and edges of the path, and the orphaned children
VC AltTreePruneResult contract_prune(Tree *t, Arena<Tree> *a, Tree *stop, bool back) {
    Ghost9 *g = gs();
    Env *env = (Env *)g->a;
    vc_check(U(stop) == g->b, "each path is pruned up to the common ancestor");
    vc_check(back ? (U(t) == g->root[0]) & (g->rooted[0] == 0) : (U(t) == g->root[1]) & (g->rooted[1] == 0), "each of the two paths is pruned once");
    g->rooted[0] = g->rooted[0] + (back ? 1 : 0);
    g->rooted[1] = g->rooted[1] + (back ? 0 : 1);
    if (back)
        return AltTreePruneResult(env->o1, env->p1);
    return AltTreePruneResult(env->o2, env->p2);
}
// (C07) the blossom takes the cycle
VC Region *contract_create_blossom(GraphFlooder *f, std::vector<RegionEdge> *v) {
    Ghost9 *g = gs();
    Env *env = (Env *)g->a;
    u64 n2 = env->p2.size(), n1 = env->p1.size(), i = g->k;
    vc_check(v->size() == n1 + n2 + 1, "the cycle has the regions of both paths and the ancestor's");
    const RegionEdge &x = (*v)[i];
    if (i < n2) {
        vc_check((U(x.region) == U(env->p2[i].region)) & same(x.edge, env->p2[i].edge), "first the path up from the second region's tree node, in order");
    } else if (i < n1 + n2) {
        u64 j = n1 - 1 - (i - n2);
        vc_check((U(x.region) == U(env->p1[j].region)) & same(x.edge, env->p1[j].edge), "then the path of the first, in reverse");
    } else {
        vc_check((U(x.region) == g->r[0]) & (U(x.edge.loc_from) == g->e1f) & (U(x.edge.loc_to) == g->e1t) & (x.edge.obs_mask == g->e1o), "last the first region with the edge that closes the cycle");
    }
    g->calls = g->calls + 1;
    return (Region *)g->last;
}
VC void contract_add_child(Tree *t, const AltTreeEdge *e) {
    Ghost9 *g = gs();
    bump(&g->c, (U(t) == g->b) & (U(e->alt_tree_node) == g->shattered[0]) & (U(e->edge.loc_from) == g->e2f) & (U(e->edge.loc_to) == g->e2t) & (e->edge.obs_mask == g->e2o));
    g->d = g->d + 1;
}
#define A Mwpm *m, Env *env, Tree *anc, RegionHitRegionEventData *ev, u64 gi, u64 gk
static inline const AltTreeEdge &orphan(const Env *env, u64 k) { return k < env->o1.size() ? env->o1[k] : env->o2[k - env->o1.size()]; }
VC bool c09_self__invAdded1(A, u64 i) { return (gi >= i) | (gk != 1) | (gs()->c >= 1); }
VC bool c09_self__invAdded2(A, u64 i) { return (gi >= i) | (gk != 2) | (gs()->c >= 1); }
VC bool c09_self__invAdded(A) { return (gk != 1) | (gs()->c >= 1); }
VC bool c09_self__locCycle(A, std::vector<RegionEdge> *v, u64 i) {
    u64 n2 = env->p2.size(), n1 = env->p1.size(), k = gs()->k;
    const RegionEdge &x = (*v)[k], &y = env->p2[k], &z = env->p1[n1 - 1 - (k - n2)];
    return ((k >= n2) | ((U(x.region) == U(y.region)) & same(x.edge, y.edge))) & ((k < n2) | (k >= n2 + i) | ((U(x.region) == U(z.region)) & same(x.edge, z.edge)));
}
VC bool c09_self__locSize(A, std::vector<RegionEdge> *v, u64 i) { return v->size() == env->p2.size() + i; }
VC bool c09_self__invCount1(A, u64 i) { return (gs()->d == i) & (i <= env->o1.size()); }
VC bool c09_self__invCount2(A, u64 i) { return (gs()->d == env->o1.size() + i) & (i <= env->o2.size()); }
VC bool c09_self__invCount3(A, u64 i) { return (gs()->c <= gs()->d) & (gs()->d < (1ull << 62)); }
VC void c09_self(A) {
    Region *r = ev->region1, *o = ev->region2;
    Tree *t = r->alt_tree_node, *q = o->alt_tree_node;
    vc_assume((t != nullptr) & (q != nullptr) & (anc != nullptr) & (U(t) != U(q)));
    Ghost9 *g = gs();
    g->a = U(env);
    g->b = U(anc);
    watch(0, r);
    watch_tree(0, t);
    watch_tree(1, q);
    g->calls = 0;
    g->c = 0;
    g->d = 0;
    RegionHitRegionEventData d = *ev;
    g->e1f = U(d.edge.loc_from); g->e1t = U(d.edge.loc_to); g->e1o = d.edge.obs_mask;
    vc_assume(g->k < env->p1.size() + env->p2.size() + 1);
    // an arbitrary orphan: gi of the first (gk == 1) or second (gk == 2) list
    vc_assume((gk == 1) | (gk == 2));
    if (gk == 1) {
        vc_assume(gi < env->o1.size());
        g->shattered[0] = U(env->o1[gi].alt_tree_node);
        g->e2f = U(env->o1[gi].edge.loc_from); g->e2t = U(env->o1[gi].edge.loc_to); g->e2o = env->o1[gi].edge.obs_mask;
    } else {
        vc_assume(gi < env->o2.size());
        g->shattered[0] = U(env->o2[gi].alt_tree_node);
        g->e2f = U(env->o2[gi].edge.loc_from); g->e2t = U(env->o2[gi].edge.loc_to); g->e2o = env->o2[gi].edge.obs_mask;
    }
    Region *old = anc->outer_region, *b = (Region *)g->last;
    vc_assume((old != nullptr) & (b != nullptr) & (U(old) != U(b)));
    vc_snapshot();
    m->handle_tree_hitting_self(d, anc);
    vc_check(g->rooted[0] == 1 && g->rooted[1] == 1, "both paths to the common ancestor are pruned");
    vc_check(g->calls == 1, "one blossom is formed");
    vc_check(old->alt_tree_node == nullptr, "the ancestor's former region is in no tree");
    vc_check(U(anc->outer_region) == U(b) && U(b->alt_tree_node) == U(anc), "the blossom takes its place in the tree");
    vc_check(g->c >= 1, "every orphaned child becomes a child of the ancestor along its edge");
    vc_check(g->d == env->o1.size() + env->o2.size(), "no other child is added");
    vc_cover("reach");
}
#undef A

// ---------------------------------------------------------------- a blossom dissolves
// Going round the cycle from the region that touches the parent: forwards if the forward path to the region that touches
// the child has an odd number of regions, backwards otherwise.  at(o): position of the o-th region on that way.
static inline u64 at(u64 o) {
    Ghost9 *g = gs();
    u64 n = g->size, p = g->pi;
    u64 f = vc_sel(p + o >= n, p + o - n, p + o), b = vc_sel(o > p, p + n - o, p - o);
    f = vc_sel(g->after != 0, p + o, f);
    b = vc_sel(g->after != 0, b, p - o);
    return vc_sel(g->even != 0, f, b);
}
static inline u64 way(u64 k) {   // inverse of at
    Ghost9 *g = gs();
    u64 n = g->size, p = g->pi;
    return vc_sel(g->even != 0, vc_sel(k >= p, k - p, k + n - p), vc_sel(k <= p, p - k, p + n - k));
}
// the rest is matched in pairs along the cycle's own direction, from the region after mstart
static inline u64 mstart() { return vc_sel(gs()->even != 0, gs()->ci, gs()->pi); }
static inline u64 mat(u64 o) { u64 x = mstart() + 1 + o, n = gs()->size; return vc_sel(x >= n, x - n, x); }
static inline u64 mway(u64 k) { u64 s = mstart() + 1, n = gs()->size; return vc_sel(k >= s, k - s, k + n - s); }
static inline const RegionEdge &cyc(u64 k) { return ((Region *)gs()->bl)->blossom_children[k]; }
// the edge from the (o-1)-th region on the way to the o-th (o = 0: from the parent)
static inline bool link_edge(const CompressedEdge &e, u64 o) {
    Ghost9 *g = gs();
    u64 f = U(e.loc_from), to = U(e.loc_to), ob = e.obs_mask;
    vc_old(true);
    const CompressedEdge &p = ((Tree *)g->alt)->parent.edge, &x = cyc(at(o - (u64)vc_sel(o == 0, 0, 1))).edge, &y = cyc(at(o)).edge;
    bool rp = (f == U(p.loc_to)) & (to == U(p.loc_from)) & (ob == p.obs_mask);
    bool sx = (f == U(x.loc_from)) & (to == U(x.loc_to)) & (ob == x.obs_mask);
    bool ry = (f == U(y.loc_to)) & (to == U(y.loc_from)) & (ob == y.obs_mask);
    bool r = ((o != 0) | rp) & ((o == 0) | (g->even == 0) | sx) & ((o == 0) | (g->even != 0) | ry);
    vc_old(false);
    return r;
}
static inline u64 cyc_region(u64 k) {
    vc_old(true);
    u64 r = U(cyc(k).region);
    vc_old(false);
    return r;
}
static inline bool cyc_edge(const CompressedEdge &e, u64 k) {
    u64 f = U(e.loc_from), to = U(e.loc_to), ob = e.obs_mask;
    vc_old(true);
    const CompressedEdge &x = cyc(k).edge;
    bool r = (f == U(x.loc_from)) & (to == U(x.loc_to)) & (ob == x.obs_mask);
    vc_old(false);
    return r;
}
// lemmas: position and region determine each other
static inline void lemma_way(u64 o) {
    Ghost9 *g = gs();
    u64 k = at(o);
    vc_check(k < g->size, "lemma: the way stays on the cycle");
    vc_check((k == g->gi) == (way(g->gi) == o), "lemma: each region has one position on the way");
    vc_check((cyc_region(k) == g->r[0]) == (k == g->gi), "lemma: regions of the cycle are distinct");
}
static inline void lemma_mway(u64 o) {
    Ghost9 *g = gs();
    u64 k = mat(o);
    vc_check(k < g->size, "lemma: the pairs stay on the cycle");
    vc_check((k == g->gi) == (mway(g->gi) == o), "lemma: each region has one position among the pairs");
    vc_check((cyc_region(k) == g->r[0]) == (k == g->gi), "lemma: regions of the cycle are distinct");
}
VC void contract_unwrap(Region *r) { BUMP4(cleared, U(r)) }
VC Tree *contract_make_child_on_way(Mwpm *m, Tree *parent, Region *inner, Region *outer, const CompressedEdge *io, const CompressedEdge *e) {
    Ghost9 *g = gs();
    u64 c = g->calls, o = c;
    vc_check(o < g->len, "only the way from the parent to the child joins the tree");
    lemma_way(o);
    lemma_way(o + 1);
    vc_check(U(parent) == (u64)vc_sel(c == 0, g->b, g->last), "each new tree node hangs below the one before, the first below the blossom's parent");
    vc_check(U(inner) == cyc_region(at(o)) && U(outer) == cyc_region(at(o + 1)), "regions on the way join the tree in order, alternately inner and outer");
    vc_check(link_edge(*io, o + 1), "inner and outer region are joined by the edge between them");
    vc_check(link_edge(*e, o), "the tree node is joined to its parent by the edge between them");
    Tree *t = (Tree *)vc_fn1(7, c);
    vc_assume((U(t) != g->alt) & (U(t) != g->b) & (t != nullptr));
    t->inner_region = inner;
    t->outer_region = outer;
    g->calls = c + 2;
    g->last = U(t);
    return t;
}
VC void contract_pair(Region *a, Region *b, const CompressedEdge *e) {
    Ghost9 *g = gs();
    u64 o = g->d;
    vc_check(o + g->len + 1 < g->size, "only the other regions are matched");
    lemma_mway(o);
    lemma_mway(o + 1);
    vc_check(U(a) == cyc_region(mat(o)) && U(b) == cyc_region(mat(o + 1)), "the other regions are matched in neighbouring pairs");
    vc_check(cyc_edge(*e, mat(o)), "along the edge between them");
    BUMP4(pairs, U(a)) BUMP4(pairs, U(b))
    g->d = g->d + 2;
}
VC void contract_area(Region *r, DetectorNode *n) { gs()->area = U(r); gs()->node = U(n); }
VC void contract_reschedule(GraphFlooder *f, DetectorNode *n) {
    vc_check(U(n) == gs()->node, "the node itself is rescheduled");
    BUMP4(settled, gs()->area)
}
VC void contract_add_child_last(Tree *t, const AltTreeEdge *e) {
    Ghost9 *g = gs();
    vc_check(U(t) == (u64)vc_sel(g->calls == 0, g->b, g->last), "the blossom's own tree node hangs below the last new one");
    vc_check(U(e->alt_tree_node) == g->alt && link_edge(e->edge, g->len), "along the edge between their regions");
    g->added = g->added + 1;
}
#define A Mwpm *m, Region *b, u64 pi, u64 ci, u64 gi, u64 gp, u64 gk
static inline bool on(u64 k) { return way(k) <= gs()->len; }
static inline u64 b2u(bool c) { return (u64)vc_sel(c, 1, 0); }
VC bool c09_shatter__allDistinct(A, u64 j) {
    return (j >= b->blossom_children.size()) | (((U(b->blossom_children[j].region) != gs()->r[0]) | (j == gi)) & ((U(b->blossom_children[j].region) != gs()->r[2]) | (j == pi)) & ((U(b->blossom_children[j].region) != gs()->r[3]) | (j == ci)));
}
VC bool c09_shatter__fmlTree(A, u64 j) {
    Tree *p = (Tree *)gs()->b;
    return (j >= p->children.size()) | (U(p->children[j].alt_tree_node) != gs()->alt) | (j == gp);
}
VC bool c09_shatter__invCleared(A, u64 i) { return gs()->cleared[0] == b2u(gi < i); }
VC bool c09_shatter__invP(A, u64 i, u64 p) { return p == (u64)vc_sel(i > pi, pi, 0); }
VC bool c09_shatter__invC(A, u64 i, u64 p) { return p == (u64)vc_sel(i > ci, ci, 0); }
VC bool c09_shatter__invStep(A, u64 i) { return ((u64)vc_sel(gs()->even != 0, i - pi, i) == gs()->calls) & (gs()->calls <= gs()->len) & ((gs()->calls & 1) == 0); }
VC bool c09_shatter__invCur(A, u64 t) { return t == (u64)vc_sel(gs()->calls == 0, gs()->b, gs()->last); }
VC bool c09_shatter__lcsEdge(A, const CompressedEdge *e) { return link_edge(*e, gs()->calls); }
VC bool c09_shatter__invDir(A) {
    Ghost9 *g = gs();
    u64 o = way(gi);
    return (g->shrinking[0] == b2u((o < g->calls) & ((o & 1) == 0))) & (g->growing[0] == b2u((o < g->calls) & ((o & 1) == 1)));
}
VC bool c09_shatter__invPairs(A, u64 j) { return (j == mstart() + 1 + gs()->d) & (gs()->d + gs()->len + 1 <= gs()->size) & ((gs()->d & 1) == 0); }
VC bool c09_shatter__invSettled(A) {
    Ghost9 *g = gs();
    u64 x = b2u(mway(gi) < g->d);
    return (g->pairs[0] == x) & (g->settled[0] == x);
}
static inline void shatter(A, bool even, bool after) {
    Tree *t = b->alt_tree_node;
    vc_assume(t != nullptr);
    Tree *p = t->parent.alt_tree_node;
    u64 n = b->blossom_children.size(), np;
    vc_assume((p != nullptr) & (U(p) != U(t)) & ((n & 1) == 1) & (n >= 3) & (pi < n) & (ci < n) & (gi < n));
    np = p->children.size();
    Region *x = b->blossom_children[gi].region, *in_parent = b->blossom_children[pi].region, *in_child = b->blossom_children[ci].region;
    Ghost9 *g = gs();
    watch(0, x);
    watch(1, b);
    g->r[2] = U(in_parent);
    g->r[3] = U(in_child);
    g->b = U(p);
    vc_assume_all("Distinct");
    vc_assume((gp < np) & (gk < np - 1));
    vc_assume(U(p->children[gp].alt_tree_node) == U(t));
    g->alt = U(t);
    vc_assume_all("Tree");
    g->cleared[0] = 0; g->settled[0] = 0; g->pairs[0] = 0;
    g->bl = U(b); g->size = n; g->pi = pi; g->ci = ci;
    u64 gap = after ? ci - pi : ci + n - pi;
    vc_assume((after == (ci >= pi)) & (even == ((gap & 1) == 0)));
    g->gap = gap;
    g->even = even;
    g->after = after;
    g->gi = gi;
    g->len = even ? gap : n - gap;
    g->calls = 0; g->d = 0; g->added = 0;
    BlossomShatterEventData ev{b, in_parent, in_child};
    vc_check(on(gi) == !(mway(gi) + g->len + 1 < n), "lemma: a region is either on the way or among the pairs");
    AltTreeEdge kept = p->children[gk], moved = p->children[np - 1];
    vc_snapshot();
    m->handle_blossom_shattering(ev);
    vc_check(g->cleared[0] == 1, "every region of the cycle becomes a top region");
    vc_check(g->calls == g->len && g->added == 1, "the whole way from parent to child is in the tree");
    vc_check(g->d + g->len + 1 == n && g->pairs[0] == b2u(!on(gi)), "every other region of the cycle is matched, once");
    vc_check(g->settled[0] == b2u(!on(gi)), "the nodes of the matched regions are rescheduled");
    vc_check(g->shrinking[0] == b2u(on(gi) & ((way(gi) & 1) == 0)), "inner regions on the way shrink");
    vc_check(g->growing[0] == b2u(on(gi) & ((way(gi) & 1) == 1)), "outer regions on the way grow");
    vc_check(U(t->inner_region) == U(in_child) && U(in_child->alt_tree_node) == U(t), "the blossom's tree node keeps the region that touches the child");
    vc_check(p->children.size() == np - 1, "one entry leaves the parent's list");
    vc_check(U(p->children[gk].alt_tree_node) == (u64)vc_sel(gk == gp, U(moved.alt_tree_node), U(kept.alt_tree_node)), "and the others stay");
    vc_check(g->freed[1] == 1, "the blossom is returned once");
    vc_cover("reach");
}
// the four cases: which way round, and whether it passes the end of the vector
VC void c09_shatter_v0(A) { shatter(m, b, pi, ci, gi, gp, gk, true, true); }
VC void c09_shatter_v1(A) { shatter(m, b, pi, ci, gi, gp, gk, true, false); }
VC void c09_shatter_v2(A) { shatter(m, b, pi, ci, gi, gp, gk, false, true); }
VC void c09_shatter_v3(A) { shatter(m, b, pi, ci, gi, gp, gk, false, false); }
#undef A

// ---------------------------------------------------------------- taking the matching out of the regions
VC void contract_unwrap_quiet(Region *r) {
    Ghost9 *g = gs();
    BUMP4(cleared, U(r))
    DetectorNode *n = (DetectorNode *)g->loc;    // the node where the match ends lies in the region at position sub
    n->region_that_arrived_top = (Region *)(uintptr_t)vc_sel(U(r) == g->r[2], U(r), U(n->region_that_arrived_top));
}
// position o of the cycle after region sub
static inline u64 rat(u64 o) { u64 x = gs()->sub + 1 + o, n = gs()->size; return vc_sel(x >= n, x - n, x); }
static inline u64 rway(u64 k) { u64 s = gs()->sub + 1, n = gs()->size; return vc_sel(k >= s, k - s, k + n - s); }
static inline void lemma_rway(u64 o) {
    Ghost9 *g = gs();
    u64 k = rat(o);
    vc_check(k < g->size, "lemma: the pairs stay on the cycle");
    vc_check((k == g->gi) == (rway(g->gi) == o), "lemma: each region has one position among the pairs");
    vc_check((cyc_region(k) == g->r[0]) == (k == g->gi), "lemma: regions of the cycle are distinct");
}
VC void contract_pair_rest(Region *a, Region *b, const CompressedEdge *e) {
    Ghost9 *g = gs();
    u64 o = g->d;
    vc_check(o + 1 < g->size, "only the other regions are matched");
    lemma_rway(o);
    lemma_rway(o + 1);
    vc_check(U(a) == cyc_region(rat(o)) && U(b) == cyc_region(rat(o + 1)), "the other regions are matched in neighbouring pairs");
    vc_check(cyc_edge(*e, rat(o)), "along the edge between them");
    vc_check(g->calls == o, "each pair is taken apart before the next is formed");
    BUMP4(pairs, U(a)) BUMP4(pairs, U(b))
    g->d = o + 2;
}
static inline void taken(Region *r) {
    Ghost9 *g = gs();
    vc_check(g->d == g->calls + 2, "a pair is matched before it is taken apart");
    vc_check(U(r) == cyc_region(rat(g->d - 2)) || U(r) == cyc_region(rat(g->d - 1)), "it is that pair");
    g->calls = g->calls + 2;
}
// induction: taking a pair apart yields its observables and weight
VC MatchingResult contract_take(Mwpm *m, Region *r) {
    taken(r);
    Ghost9 *g = gs();
    u64 o = vc_fn1(8, g->calls), w = vc_fn1(9, g->calls);
    g->sumo = g->sumo ^ o;
    g->sumw = g->sumw + w;
    return MatchingResult((obs_int)o, (total_weight_int)w);
}
VC void contract_take_edges(Mwpm *m, Region *r, std::vector<CompressedEdge> *v) {
    vc_check(U(v) == gs()->list, "all edges go into the same list");
    taken(r);
}
#define A Mwpm *m, Region *b, MatchingResult *res, u64 si, u64 gi
VC bool c09_take_pairs__allDistinct(A, u64 j) {
    return (j >= b->blossom_children.size()) | (((U(b->blossom_children[j].region) != gs()->r[0]) | (j == gi)) & ((U(b->blossom_children[j].region) != gs()->r[2]) | (j == si)));
}
VC bool c09_take_pairs__invCleared(A, u64 i) { return gs()->cleared[0] == b2u(gi < i); }
VC bool c09_take_pairs__invTop(A, u64 i) { return (si >= i) | (U(((DetectorNode *)gs()->loc)->region_that_arrived_top) == gs()->r[2]); }
VC bool c09_take_pairs__invStep(A, u64 i) { return (i == gs()->d) & (gs()->d == gs()->calls) & ((i & 1) == 0) & (i < gs()->size); }
VC bool c09_take_pairs__invPairs(A) { return gs()->pairs[0] == b2u(rway(gi) < gs()->d); }
VC bool c09_take_pairs__invSum(A) { return ((u64)res->weight == gs()->sumw) & (res->obs_mask == gs()->sumo); }
static inline void take_pairs(A, bool edges) {
    u64 n = b->blossom_children.size();
    vc_assume(((n & 1) == 1) & (n >= 3) & (si < n) & (gi < n));
    Region *x = b->blossom_children[gi].region, *s = b->blossom_children[si].region, *o = b->match.region;
    DetectorNode *loc = b->match.edge.loc_from;
    vc_assume((loc != nullptr) & (U(o) != U(b)) & (U(o) != U(s)) & (U(s) != U(b)));
    Ghost9 *g = gs();
    watch(0, x);
    watch(1, b);
    g->r[2] = U(s);
    vc_assume_all("Distinct");
    g->cleared[0] = 0; g->pairs[0] = 0;
    g->bl = U(b); g->size = n; g->sub = si; g->gi = gi; g->loc = U(loc);
    g->calls = 0; g->d = 0;
    g->sumo = res->obs_mask;
    g->sumw = (u64)res->weight + (u64)(edges ? 0 : base(b->radius.data));
    g->list = U(res);
    CompressedEdge e = b->match.edge;
    vc_snapshot();
    Region *t;
    if (edges)
        t = m->pair_and_shatter_subblossoms_and_extract_match_edges(b, *(std::vector<CompressedEdge> *)res);
    else
        t = m->pair_and_shatter_subblossoms_and_extract_matches(b, *res);
    vc_check(g->cleared[0] == 1, "every region of the cycle becomes a top region");
    vc_check(U(t) == U(s), "the region at the blossom's match edge is handed back");
    vc_check(U(s->match.region) == U(o) && same(s->match.edge, e), "it inherits the blossom's match");
    vc_check(o == nullptr || U(o->match.region) == U(s), "and its partner knows");
    vc_check(g->d + 1 == n && g->calls == g->d, "all the other regions are matched and taken apart");
    vc_check(g->pairs[0] == b2u(gi != si), "each once");
    vc_check(g->freed[1] == 1, "the blossom is returned once");
    if (!edges) {
        vc_check((u64)res->weight == g->sumw, "the weight grows by the blossom's radius and the weights taken out");
        vc_check(res->obs_mask == g->sumo, "the observables taken out are combined");
    }
    vc_cover("reach");
}
VC void c09_take_pairs_v0(A) { take_pairs(m, b, res, si, gi, false); }
VC void c09_take_pairs_v1(A) { take_pairs(m, b, res, si, gi, true); }
#undef A
// --- one match
VC void contract_cleanup(Region *r) { BUMP4(cleaned, U(r)) }
static inline Region *split(Region *b) {
    Ghost9 *g = gs();
    vc_check(U(b) == g->r[0] || U(b) == g->r[1], "only the two matched regions are split");
    vc_check(!b->blossom_children.empty(), "only a blossom is split");
    bool first = U(b) == g->r[0];
    Region *s = (Region *)(uintptr_t)vc_sel(first, g->r[2], g->r[3]), *o = b->match.region;
    s->match = b->match;
    if (o != nullptr)
        o->match.region = s;
    bump(&g->c, first);
    bump(&g->d, !first);
    BUMP4(freed, U(b))
    return s;
}
VC Region *contract_split(Mwpm *m, Region *b, MatchingResult *res) {
    Ghost9 *g = gs();
    Region *s = split(b);
    u64 o = vc_fn1(8, U(b)), w = vc_fn1(9, U(b));
    res->obs_mask = res->obs_mask ^ o;
    res->weight = res->weight + (total_weight_int)w;
    g->sumo = g->sumo ^ o;
    g->sumw = g->sumw + w;
    return s;
}
VC Region *contract_split_edges(Mwpm *m, Region *b, std::vector<CompressedEdge> *v) {
    vc_check(U(v) == gs()->list, "all edges go into the same list");
    return split(b);
}
static inline void rest(Region *r) {
    Ghost9 *g = gs();
    Region *o = r->match.region;
    vc_check(U(r) == (u64)vc_sel(g->c != 0, g->r[2], g->r[0]), "what is left of the first region is taken apart");
    vc_check(U(o) == (u64)vc_sel(g->d != 0, g->r[3], g->r[1]), "together with what is left of its partner");
    g->calls = g->calls + 1;
}
VC MatchingResult contract_rest(Mwpm *m, Region *r) {
    Ghost9 *g = gs();
    rest(r);
    u64 o = vc_fn1(8, U(r)), w = vc_fn1(9, U(r));
    g->sumo = g->sumo ^ o;
    g->sumw = g->sumw + w;
    return MatchingResult((obs_int)o, (total_weight_int)w);
}
VC void contract_rest_edges(Mwpm *m, Region *r, std::vector<CompressedEdge> *v) {
    vc_check(U(v) == gs()->list, "all edges go into the same list");
    rest(r);
}
static inline void take(Mwpm *m, Region *r, std::vector<CompressedEdge> *v, u64 gk, bool edges) {
    Region *o = r->match.region;
    Ghost9 *g = gs();
    watch(0, r);
    watch(1, o);
    g->cleaned[0] = 0;
    g->cleaned[1] = 0;
    vc_assume((r != nullptr) & (g->r[2] != 0) & (g->r[3] != 0) & (g->r[2] != g->r[3]) & (g->r[0] != g->r[1]) & (g->r[0] != g->r[2]) & (g->r[0] != g->r[3]) & (g->r[1] != g->r[2]) & (g->r[1] != g->r[3]));
    vc_assume((o == nullptr) | (U(o->match.region) == U(r)));
    g->calls = 0; g->c = 0; g->d = 0; g->sumo = 0; g->sumw = 0;
    g->list = U(v);
    u64 n0 = v->size();
    vc_assume(!edges | (gk < n0));
    bool k1 = r->blossom_children.size() != 0, k2 = (o != nullptr) && o->blossom_children.size() != 0;
    CompressedEdge e = r->match.edge, was = (*v)[edges ? gk : 0];
    int64_t y = base(r->radius.data), z = o == nullptr ? 0 : base(o->radius.data);
    MatchingResult res;
    vc_snapshot();
    if (edges)
        m->shatter_blossom_and_extract_match_edges(r, *v);
    else
        res = m->shatter_blossom_and_extract_matches(r);
    vc_check(g->cleaned[0] == 1 && (o == nullptr || g->cleaned[1] == 1), "the nodes of both regions are cleared");
    if (!k1 && !k2) {
        vc_check(g->calls == 0 && g->c == 0 && g->d == 0, "a match of two simple regions is not split");
        vc_check(g->freed[0] == 1 && (o == nullptr || g->freed[1] == 1), "its regions are returned once");
        if (edges) {
            vc_check(v->size() == n0 + 1 && same((*v)[n0], e), "its edge is listed");
            vc_check(same((*v)[gk], was), "edges listed before stay");
        } else {
            vc_check(res.obs_mask == e.obs_mask && res.weight == y + z, "it yields the observables of its edge and the weight of its radii");
        }
    } else {
        vc_check(g->c == b2u(k1) && g->d == b2u(k2) && g->calls == 1, "blossoms are split, once each, and the rest is taken apart");
        vc_check(g->freed[0] == b2u(k1) && (o == nullptr || g->freed[1] == b2u(k2)), "regions that are left are not returned here");
        if (!edges)
            vc_check(res.obs_mask == g->sumo && (u64)res.weight == g->sumw, "observables and weights are combined");
        else
            vc_check(v->size() == n0, "no other edge is listed");
    }
    vc_cover("reach");
}
VC void c09_take_match(Mwpm *m, Region *r, std::vector<CompressedEdge> *v, u64 gk) { take(m, r, v, gk, false); }
VC void c09_take_edges(Mwpm *m, Region *r, std::vector<CompressedEdge> *v, u64 gk) { take(m, r, v, gk, true); }
