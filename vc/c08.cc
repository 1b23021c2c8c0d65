// C08: alternating-tree operations.
#include "flood.h"
#include "pymatching/sparse_blossom/matcher/alternating_tree.h"
typedef uint64_t u64;
typedef GraphFillRegion Region;
typedef AltTreeNode Tree;
#define U(p) ((u64)(uintptr_t)(p))
struct Val { u64 f, t, o; };
static inline Val val(const CompressedEdge &e) { return Val{U(e.loc_from), U(e.loc_to), e.obs_mask}; }
static inline bool same(const CompressedEdge &a, Val v) { return (U(a.loc_from) == v.f) & (U(a.loc_to) == v.t) & (a.obs_mask == v.o); }
static inline bool rev(const CompressedEdge &a, Val v) { return (U(a.loc_from) == v.t) & (U(a.loc_to) == v.f) & (a.obs_mask == v.o); }
static inline bool none(const CompressedEdge &a) { return (a.loc_from == nullptr) & (a.loc_to == nullptr) & (a.obs_mask == 0); }
struct Ghost8 {
    u64 k, released, other, n;
    u64 stop, len, place;
    u64 on, of, ot, oo;                          // an arbitrary orphan
    u64 r0, f0, t0, o0, r1, f1, t1, o1;          // the two entries of an arbitrary step of the path
    u64 ro, ri;
};
static inline Ghost8 *gs() { return (Ghost8 *)vc_ghost(); }
// ---------------------------------------------------------------- construction
VC void c08_new_node(Tree *t, Region *in, Region *out, CompressedEdge *e) {
    vc_assume((in != nullptr) & (out != nullptr) & (U(in) != U(out)));
    CompressedEdge x = *e;
    Val v = val(x);
    vc_snapshot();
    new (t) AltTreeNode(in, out, x);
    vc_check(U(t->inner_region) == U(in) && U(t->outer_region) == U(out) && same(t->inner_to_outer_edge, v), "the node holds the two regions and the edge between them");
    vc_check(t->parent.alt_tree_node == nullptr && none(t->parent.edge) && t->children.empty() && !t->visited, "a new node stands alone");
    vc_check(U(in->alt_tree_node) == U(t) && U(out->alt_tree_node) == U(t), "both regions point to their node");
    vc_cover("reach");
}
VC void c08_new_root(Tree *t, Region *out) {
    vc_assume(out != nullptr);
    vc_snapshot();
    new (t) AltTreeNode(out);
    vc_check(t->inner_region == nullptr && U(t->outer_region) == U(out) && none(t->inner_to_outer_edge), "a root holds one region");
    vc_check(t->parent.alt_tree_node == nullptr && none(t->parent.edge) && t->children.empty() && !t->visited, "a new node stands alone");
    vc_check(U(out->alt_tree_node) == U(t), "the region points to its node");
    vc_cover("reach");
}
struct Kids { std::vector<AltTreeEdge> v; };
VC void c08_new_full(Tree *t, Region *in, Region *out, CompressedEdge *e, AltTreeEdge *p, Kids *kids, u64 gi) {
    vc_assume((in != nullptr) & (out != nullptr) & (U(in) != U(out)) & (gi < kids->v.size()));
    CompressedEdge x = *e;
    AltTreeEdge q = *p;
    Val v = val(x), pv = val(q.edge), kv = val(kids->v[gi].edge);
    u64 pn = U(q.alt_tree_node), kn = U(kids->v[gi].alt_tree_node), n = kids->v.size();
    vc_snapshot();
    new (t) AltTreeNode(in, out, x, q, kids->v);
    vc_check(U(t->inner_region) == U(in) && U(t->outer_region) == U(out) && same(t->inner_to_outer_edge, v), "the node holds the two regions and the edge between them");
    vc_check(U(t->parent.alt_tree_node) == pn && same(t->parent.edge, pv) && !t->visited, "the parent is as given");
    vc_check(t->children.size() == n && U(t->children[gi].alt_tree_node) == kn && same(t->children[gi].edge, kv), "the children are as given");
    vc_check(U(in->alt_tree_node) == U(t) && U(out->alt_tree_node) == U(t), "both regions point to their node");
    vc_cover("reach");
}
// ---------------------------------------------------------------- a child is added
VC void c08_add_child(Tree *t, AltTreeEdge *e, u64 gi) {
    Tree *c = e->alt_tree_node;
    u64 n = t->children.size();
    vc_assume((c != nullptr) & (U(c) != U(t)) & (gi < n));
    AltTreeEdge x = *e;
    Val v = val(x.edge), kv = val(t->children[gi].edge);
    u64 kn = U(t->children[gi].alt_tree_node);
    vc_snapshot();
    vc_writes(&c->parent, sizeof(AltTreeEdge));
    vc_writes(&t->children, sizeof(t->children));
    t->add_child(x);
    vc_check(t->children.size() == n + 1 && U(t->children[n].alt_tree_node) == U(c) && same(t->children[n].edge, v), "the child is listed along its edge");
    vc_check(U(c->parent.alt_tree_node) == U(t) && rev(c->parent.edge, v), "the child's link to its parent mirrors it, with the edge reversed");
    vc_check(U(t->children[gi].alt_tree_node) == kn && same(t->children[gi].edge, kv), "other children stay");
    vc_frame("add_child");
    vc_cover("reach");
}
// ---------------------------------------------------------------- the root of a tree
static inline u64 root_of(u64 t) { return vc_fn1(1, t); }
VC bool c08_find_root__allRoot(Tree *t, u64 x) {
    Tree *n = (Tree *)x;
    return root_of(x) == (u64)vc_sel(n->parent.alt_tree_node != nullptr, root_of(U(n->parent.alt_tree_node)), x);
}
VC bool c08_find_root__invSame(Tree *t, u64 c) { return root_of(c) == root_of(U(t)); }
VC void c08_find_root(Tree *t) {
    vc_assume(t != nullptr);
    vc_assume_all("Root");
    vc_snapshot();
    const Tree *r = t->find_root();
    vc_check(r->parent.alt_tree_node == nullptr, "the root has no parent");
    vc_check(U(r) == root_of(U(t)), "it is the root of this node's tree");
    vc_frame("find_root");
    vc_cover("reach");
}
// ---------------------------------------------------------------- re-rooting (induction: the parent has become the root)
VC void contract_parent_root(Tree *p) {
    Ghost8 *g = gs();
    g->n = g->n + 1;
    Tree *q = p->parent.alt_tree_node;
    vc_check(U(p) == g->other, "the parent is made the root first");
    if (q != nullptr) {      // its own parent is now one of its children
        CompressedEdge e{(DetectorNode *)vc_any_u64(), (DetectorNode *)vc_any_u64(), vc_any_u64()};
        p->children.push_back(AltTreeEdge(q, e));
    }
    p->parent.alt_tree_node = nullptr;
    p->parent.edge.loc_from = nullptr;
    p->parent.edge.loc_to = nullptr;
    p->parent.edge.obs_mask = 0;
    p->inner_region = nullptr;
    p->inner_to_outer_edge.loc_from = nullptr;
    p->inner_to_outer_edge.loc_to = nullptr;
    p->inner_to_outer_edge.obs_mask = 0;
}
#define A Tree *t, u64 gp, u64 gi, u64 gk
VC bool c08_become_root__fmlOnce(A, u64 j) {
    Tree *p = (Tree *)gs()->other;
    return (j >= p->children.size()) | (U(p->children[j].alt_tree_node) != U(t)) | (j == gp);
}
VC void c08_become_root(A) {
    Ghost8 *g = gs();
    Tree *p = t->parent.alt_tree_node;
    vc_assume((t != nullptr) & (U(p) != U(t)));
    u64 n = t->children.size();
    g->n = 0;
    g->other = U(p);
    if (p == nullptr) {
        vc_snapshot();
        t->become_root();
        vc_frame("a root stays as it is");
        vc_cover("root");
        return;
    }
    Tree *q = p->parent.alt_tree_node;
    u64 np = p->children.size(), in = U(t->inner_region), out = U(t->outer_region), pout = U(p->outer_region);
    vc_assume((U(q) != U(t)) & (U(q) != U(p)) & (gp < np) & (gk < np) & (gk != gp) & (gi < n));
    vc_assume(U(p->children[gp].alt_tree_node) == U(t));
    vc_assume_all("Once");
    Val link = val(t->parent.edge), io = val(t->inner_to_outer_edge), kv = val(t->children[gi].edge), pkv = val(p->children[gk].edge);
    u64 kn = U(t->children[gi].alt_tree_node), pkn = U(p->children[gk].alt_tree_node), last = np - 1 + (u64)vc_sel(q != nullptr, 1, 0);
    u64 now = (u64)vc_sel(gk == last, gp, gk);
    vc_snapshot();
    t->become_root();
    vc_check(g->n == 1, "the parent is re-rooted once");
    vc_check(t->parent.alt_tree_node == nullptr && none(t->parent.edge), "the node has no parent");
    vc_check(t->inner_region == nullptr && none(t->inner_to_outer_edge) && U(t->outer_region) == out, "it keeps its outer region and has no inner one");
    vc_check(U(p->parent.alt_tree_node) == U(t) && same(p->parent.edge, io), "the former parent hangs below it, along the edge that joined its two regions");
    vc_check(U(p->inner_region) == in && same(p->inner_to_outer_edge, link) && U(p->outer_region) == pout, "the inner region moves to the former parent, joined along the former link");
    vc_check(t->children.size() == n + 1 && U(t->children[n].alt_tree_node) == U(p) && rev(t->children[n].edge, io), "the former parent is listed as a child, with the mirrored edge");
    vc_check(U(t->children[gi].alt_tree_node) == kn && same(t->children[gi].edge, kv), "its other children stay");
    vc_check(p->children.size() == last, "one entry leaves the former parent's list");
    vc_check(U(p->children[now].alt_tree_node) == pkn && same(p->children[now].edge, pkv), "the former parent's other children stay");
    vc_cover("reach");
}
#undef A
// ---------------------------------------------------------------- the nearest common ancestor
// depth(x): distance from the root.  up1(d), up2(d): the ancestor of the first (second) node at depth d.
static inline u64 depth(u64 x) { return vc_fn1(2, x); }
static inline u64 parent(u64 x) { return U(((Tree *)x)->parent.alt_tree_node); }
#define A Tree *t, Tree *o, u64 gx
static inline bool anc1(u64 t, u64 x) { return (x == vc_fn1(3, depth(x))) & (depth(x) <= depth(t)); }
static inline bool anc2(u64 o, u64 x) { return (x == vc_fn1(4, depth(x))) & (depth(x) <= depth(o)); }
VC bool c08_ancestor__fmlTree(A, u64 x) {
    u64 p = parent(x), d = depth(x);
    return (x == 0) | (((p != 0) | (d == 0)) & ((p == 0) | ((d == depth(p) + 1) & (d - 1 < (1ull << 60)))) & ((p == 0) | !anc1(U(t), x) | (p == vc_fn1(3, depth(p)))) & ((p == 0) | !anc2(U(o), x) | (p == vc_fn1(4, depth(p)))));
}
VC bool c08_ancestor__fmlFresh(A, u64 x) { return !((Tree *)x)->visited; }
VC bool c08_ancestor__invAnc1(A, u64 c) { return (c != 0) & anc1(U(t), c); }
VC bool c08_ancestor__invAnc2(A, u64 c) { return (c != 0) & anc2(U(o), c); }
// marks so far: everything passed on the two ways up, and nothing else
VC bool c08_ancestor__alqMarks(A, u64 x, u64 c, u64 d) {
    bool m = (anc1(U(t), x) & (depth(x) >= depth(c))) | (anc2(U(o), x) & (depth(x) >= depth(d)));
    return (x == 0) | (((Tree *)x)->visited == m);
}
VC bool c08_ancestor__alqNone(A, u64 x, u64 c, u64 d) {
    return (x == 0) | !(anc1(U(t), x) & (depth(x) >= depth(c)) & anc2(U(o), x) & (depth(x) >= depth(d)));
}
// the marks above the ancestor found are cleared bottom up: common ancestors below p are unmarked, above p the marks have no gap
static inline bool common(u64 t, u64 o, u64 x) { return anc1(t, x) & anc2(o, x); }
VC bool c08_ancestor__invCommon(A, u64 p) { return (p == 0) | common(U(t), U(o), p); }
VC bool c08_ancestor__invBelow(A, u64 p) { return !common(U(t), U(o), gx) | !((p == 0) | (depth(gx) > depth(p))) | !((Tree *)gx)->visited; }
VC bool c08_ancestor__alqUp(A, u64 y, u64 p) {
    return !(((Tree *)gx)->visited & common(U(t), U(o), gx) & common(U(t), U(o), y) & (y != 0) & (depth(gx) <= depth(y)) & (p != 0) & (depth(y) <= depth(p))) | ((Tree *)y)->visited;
}
VC void c08_ancestor(A) {
    vc_assume((t != nullptr) & (o != nullptr) & (U(t) != U(o)) & (gx != 0));
    vc_assume((U(t) == vc_fn1(3, depth(U(t)))) & (U(o) == vc_fn1(4, depth(U(o)))));
    vc_assume_all("Tree");
    vc_assume_all("Fresh");
    vc_snapshot();
    Tree *c = t->most_recent_common_ancestor(*o);
    bool both = anc1(U(t), gx) & anc2(U(o), gx);
    if (c == nullptr) {
        vc_check(!both, "no ancestor is reported only if there is none");
        vc_cover("none");
        return;
    }
    vc_check(anc1(U(t), U(c)) && anc2(U(o), U(c)), "the node found is an ancestor of both");
    vc_check(!both || depth(gx) <= depth(U(c)), "no common ancestor is nearer");
    vc_check(!both || !((Tree *)gx)->visited, "no common ancestor keeps a mark");
    vc_cover("found");
}
#undef A

// ---------------------------------------------------------------- pruning the way up to an ancestor
// up(k): the k-th node of the way (up(0) the node itself, up(len) the ancestor); index(x): position of x on it;
// slot(x): where x lists the node of the way below it; off(k): number of orphans left by the first k nodes
static inline u64 up(u64 k) { return vc_fn1(5, k); }
static inline u64 index_of(u64 x) { return vc_fn1(6, x); }
static inline u64 slot(u64 x) { return vc_fn1(7, x); }
static inline u64 off(u64 k) { return vc_fn1(8, k); }
static inline u64 kids(u64 x) { return ((Tree *)x)->children.size(); }
static inline const AltTreeEdge &kid(u64 x, u64 j) { return ((Tree *)x)->children[j]; }
static inline bool on_way(u64 x) { return (x == up(index_of(x))) & (index_of(x) < gs()->len); }
static inline bool on_way_or_end(u64 x) { return (x == up(index_of(x))) & (index_of(x) <= gs()->len); }
static inline u64 b2u(bool c) { return (u64)vc_sel(c, 1, 0); }
VC void contract_release(Arena<Tree> *a, Tree *x) {
    Ghost8 *g = gs();
    vc_check(U(x) == up(g->k) && g->k < g->len, "the nodes on the way are returned, each once");
    g->k = g->k + 1;
}
#define A Tree *t, Arena<Tree> *arena, Tree *stop, u64 gk, u64 gi, u64 gz
VC bool c08_prune__fmlWay(A, u64 x) {
    u64 p = parent(x), i = index_of(x);
    return !on_way(x) | ((x != 0) & (p != 0) & (x != U(stop)) & (p == up(i + 1)) & (index_of(p) == i + 1) & ((p == U(stop)) == (i + 1 == gs()->len)));
}
VC bool c08_prune__fmlSlot(A, u64 x) { return !on_way_or_end(x) | (index_of(x) == 0) | ((slot(x) < kids(x)) & (U(kid(x, slot(x)).alt_tree_node) == up(index_of(x) - 1))); }
VC bool c08_prune__fmlOnce(A, u64 x, u64 j) { return !on_way_or_end(x) | (index_of(x) == 0) | (j >= kids(x)) | (U(kid(x, j).alt_tree_node) != up(index_of(x) - 1)) | (j == slot(x)); }
VC bool c08_prune__fmlOff(A, u64 x) { return !on_way(x) | (off(index_of(x) + 1) == off(index_of(x)) + kids(x) - b2u(index_of(x) != 0)); }
static inline bool same_child(u64 x, u64 j, u64 j0) {
    const AltTreeEdge &e = kid(x, j);
    u64 a = U(e.alt_tree_node), f = U(e.edge.loc_from), to = U(e.edge.loc_to), ob = e.edge.obs_mask;
    vc_old(true);
    const AltTreeEdge &d = kid(x, j0);
    bool r = (a == U(d.alt_tree_node)) & (f == U(d.edge.loc_from)) & (to == U(d.edge.loc_to)) & (ob == d.edge.obs_mask);
    vc_old(false);
    return r;
}
static inline u64 kids0(u64 x) {
    vc_old(true);
    u64 r = kids(x);
    vc_old(false);
    return r;
}
// nodes further up are untouched; the current one has lost its entry for the node below
VC bool c08_prune__allLaterLen(A, u64 x) { return !on_way_or_end(x) | (index_of(x) <= gs()->k) | (kids(x) == kids0(x)); }
VC bool c08_prune__allLater(A, u64 x, u64 j) { return !on_way_or_end(x) | (index_of(x) <= gs()->k) | (j >= kids(x)) | same_child(x, j, j); }
VC bool c08_prune__allNowLen(A, u64 x) { return !on_way_or_end(x) | (index_of(x) != gs()->k) | (kids(x) == kids0(x) - b2u(index_of(x) != 0)); }
VC bool c08_prune__allNow(A, u64 x, u64 j) {
    return !on_way_or_end(x) | (index_of(x) != gs()->k) | (j >= kids(x)) | ((index_of(x) != 0) & (j == slot(x))) | same_child(x, j, j);
}
VC bool c08_prune__allNowMoved(A, u64 x) {
    return !on_way_or_end(x) | (index_of(x) != gs()->k) | (index_of(x) == 0) | (slot(x) >= kids(x)) | same_child(x, slot(x), kids0(x) - 1);
}
// so they still list the node below exactly once
VC bool c08_prune__allSlotNow(A, u64 x) { return !on_way_or_end(x) | (index_of(x) <= gs()->k) | ((slot(x) < kids(x)) & (U(kid(x, slot(x)).alt_tree_node) == up(index_of(x) - 1))); }
VC bool c08_prune__allOnceNow(A, u64 x, u64 j) { return !on_way_or_end(x) | (index_of(x) <= gs()->k) | (j >= kids(x)) | (U(kid(x, j).alt_tree_node) != up(index_of(x) - 1)) | (j == slot(x)); }
VC bool c08_prune__invCur(A, u64 c) { return (c == up(gs()->k)) & (index_of(c) == gs()->k) & (gs()->k <= gs()->len) & (c != 0); }
VC bool c08_prune__locOrphanCount(A, std::vector<AltTreeEdge> *v) { return v->size() == off(gs()->k); }
VC bool c08_prune__locOrphan(A, std::vector<AltTreeEdge> *v) {
    Ghost8 *g = gs();
    const AltTreeEdge &e = (*v)[g->place];
    return (gk >= g->k) | ((U(e.alt_tree_node) == g->on) & (U(e.edge.loc_from) == g->of) & (U(e.edge.loc_to) == g->ot) & (e.edge.obs_mask == g->oo) & (g->place < v->size()));
}
VC bool c08_prune__locPathCount(A, std::vector<RegionEdge> *v) { return v->size() == 2 * gs()->k; }
static inline bool step0(const RegionEdge &e) {
    Ghost8 *g = gs();
    return (U(e.region) == g->r0) & (U(e.edge.loc_from) == g->f0) & (U(e.edge.loc_to) == g->t0) & (e.edge.obs_mask == g->o0);
}
static inline bool step1(const RegionEdge &e) {
    Ghost8 *g = gs();
    return (U(e.region) == g->r1) & (U(e.edge.loc_from) == g->f1) & (U(e.edge.loc_to) == g->t1) & (e.edge.obs_mask == g->o1);
}
VC bool c08_prune__locPath(A, std::vector<RegionEdge> *v) { return (gk >= gs()->k) | (step0((*v)[2 * gk]) & step1((*v)[2 * gk + 1])); }
VC bool c08_prune__invLeft(A) { return (gk >= gs()->k) | ((((Region *)gs()->ro)->alt_tree_node == nullptr) & (((Region *)gs()->ri)->alt_tree_node == nullptr)); }
static inline void prune(A, bool back) {
    Ghost8 *g = gs();
    vc_assume((t != nullptr) & (stop != nullptr) & (g->len < (1ull << 39)));
    g->k = 0;
    vc_assume((U(t) == up(0)) & (index_of(U(t)) == 0) & (off(0) == 0) & ((U(t) == U(stop)) == (g->len == 0)) & (U(stop) == up(g->len)) & (index_of(U(stop)) == g->len));
    vc_assume_all("Way");
    vc_assume_all("Slot");
    vc_assume_all("Once");
    vc_assume_all("Off");
    // an arbitrary node of the way, and an arbitrary child of it off the way
    u64 x = up(gk), p = parent(x);
    vc_assume((gk < g->len) & (index_of(x) == gk) & (gi < kids(x)) & ((gk == 0) | (gi != slot(x))));
    g->place = off(gk) + (u64)vc_sel((gk != 0) & (gi == kids(x) - 1), slot(x), gi);
    const AltTreeEdge &e = kid(x, gi);
    g->on = U(e.alt_tree_node); g->of = U(e.edge.loc_from); g->ot = U(e.edge.loc_to); g->oo = e.edge.obs_mask;
    Tree *n = (Tree *)x;
    const CompressedEdge &io = n->inner_to_outer_edge, &up_edge = n->parent.edge;
    g->ro = U(n->outer_region); g->ri = U(n->inner_region);
    if (back) {
        g->r0 = U(n->inner_region); g->f0 = U(io.loc_from); g->t0 = U(io.loc_to); g->o0 = io.obs_mask;
        g->r1 = U(((Tree *)p)->outer_region); g->f1 = U(up_edge.loc_to); g->t1 = U(up_edge.loc_from); g->o1 = up_edge.obs_mask;
    } else {
        g->r0 = U(n->outer_region); g->f0 = U(io.loc_to); g->t0 = U(io.loc_from); g->o0 = io.obs_mask;
        g->r1 = U(n->inner_region); g->f1 = U(up_edge.loc_from); g->t1 = U(up_edge.loc_to); g->o1 = up_edge.obs_mask;
    }
    // an arbitrary other child of the ancestor
    u64 ns = kids(U(stop));
    vc_assume((gz < ns) & (gz != slot(U(stop))));
    AltTreeEdge z = kid(U(stop), gz);
    vc_snapshot();
    AltTreePruneResult r = t->prune_upward_path_stopping_before(*arena, stop, back);
    vc_check(g->k == g->len, "all nodes on the way are returned, and no others");
    vc_check(r.orphan_edges.size() == off(g->len), "nothing else is handed over");
    const AltTreeEdge &o = r.orphan_edges[g->place];
    vc_check((U(o.alt_tree_node) == g->on) & (U(o.edge.loc_from) == g->of) & (U(o.edge.loc_to) == g->ot) & (o.edge.obs_mask == g->oo), "every child off the way is handed over with its edge");
    vc_check(r.pruned_path_region_edges.size() == 2 * g->len, "the path has two regions per node");
    vc_check(step0(r.pruned_path_region_edges[2 * gk]) && step1(r.pruned_path_region_edges[2 * gk + 1]), "regions and edges of the path come in order");
    vc_check(((Region *)g->ro)->alt_tree_node == nullptr && ((Region *)g->ri)->alt_tree_node == nullptr, "regions on the way are in no tree");
    vc_check(kids(U(stop)) == ns - 1, "the ancestor loses one child");
    const AltTreeEdge &y = kid(U(stop), (u64)vc_sel(gz == ns - 1, slot(U(stop)), gz));
    vc_check((U(y.alt_tree_node) == U(z.alt_tree_node)) & (U(y.edge.loc_from) == U(z.edge.loc_from)) & (U(y.edge.loc_to) == U(z.edge.loc_to)) & (y.edge.obs_mask == z.edge.obs_mask), "and keeps the others");
    vc_cover("reach");
}
VC void c08_prune_v0(A) { prune(t, arena, stop, gk, gi, gz, false); }
VC void c08_prune_v1(A) { prune(t, arena, stop, gk, gi, gz, true); }
#undef A
