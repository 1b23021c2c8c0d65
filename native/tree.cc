// C08: operations on random alternating trees against a reference model.
#include "common.h"
#include "pymatching/sparse_blossom/matcher/mwpm.h"
using namespace pm;
typedef std::tuple<void *, void *, void *, void *, uint64_t> UE;   // undirected region edge, smaller region first
static UE ue(GraphFillRegion *a, GraphFillRegion *b, CompressedEdge e) {   // e runs from a to b
    if (a > b) { std::swap(a, b); e = CompressedEdge{e.loc_to, e.loc_from, e.obs_mask}; }
    return {a, b, e.loc_from, e.loc_to, e.obs_mask};
}
static DetectorNode det[400];
struct T {
    Arena<AltTreeNode> arena;
    std::vector<GraphFillRegion *> own;
    std::vector<AltTreeNode *> nodes;
    uint64_t tag = 1;
    ~T() { for (auto p : own) delete p; }
    GraphFillRegion *reg() { own.push_back(new GraphFillRegion()); return own.back(); }
    CompressedEdge ce(Rng &r) { tag++; return {&det[r.below(400)], &det[r.below(400)], r.chance(50) ? tag : r.next()}; }
    AltTreeNode *root(Rng &r) {
        auto *n = arena.alloc_unconstructed();
        new (n) AltTreeNode(reg());
        nodes.push_back(n);
        return n;
    }
    AltTreeNode *child(Rng &r, AltTreeNode *p) {
        auto *n = arena.alloc_unconstructed();
        auto *in = reg();
        auto *out = reg();
        new (n) AltTreeNode(in, out, ce(r));
        CompressedEdge e = ce(r);
        size_t before = p->children.size();
        auto old = p->children;
        p->add_child(AltTreeEdge(n, e));
        if (p->children.size() != before + 1) fail("add_child must add exactly one child");
        int found = 0;
        for (auto &c : p->children) if (c.alt_tree_node == n && c.edge == e) found++;
        if (found != 1) fail("add_child must record the child with its edge");
        for (auto &o : old) {
            int k = 0;
            for (auto &c : p->children) if (c.alt_tree_node == o.alt_tree_node && c.edge == o.edge) k++;
            if (k != 1) fail("add_child must keep the other children");
        }
        if (n->parent.alt_tree_node != p || n->parent.edge.loc_from != e.loc_to || n->parent.edge.loc_to != e.loc_from || n->parent.edge.obs_mask != e.obs_mask) fail("add_child must record the reversed edge at the child");
        if (in->alt_tree_node != n || out->alt_tree_node != n || n->outer_region != out || n->inner_region != in) fail("a tree node must be recorded at its regions");
        nodes.push_back(n);
        return n;
    }
};
static void walk(AltTreeNode *n, std::multiset<UE> &es, std::multiset<void *> &rs, std::set<AltTreeNode *> &ns, int depth = 0) {
    if (depth > 200) fail("tree is cyclic");
    if (!ns.insert(n).second) fail("a node occurs twice in the tree");
    if (n->inner_region) rs.insert(n->inner_region);
    if (!n->outer_region) fail("a tree node lost its growing region");
    rs.insert(n->outer_region);
    if (n->inner_region) es.insert(ue(n->inner_region, n->outer_region, n->inner_to_outer_edge));
    for (auto &c : n->children) {
        if (c.alt_tree_node->parent.alt_tree_node != n) fail("a child does not point back to its parent");
        auto &pe = c.alt_tree_node->parent.edge;
        if (pe.loc_from != c.edge.loc_to || pe.loc_to != c.edge.loc_from || pe.obs_mask != c.edge.obs_mask) fail("parent and child edges are not reverses of each other");
        if (!c.alt_tree_node->inner_region) fail("a non-root tree node has no shrinking region");
        es.insert(ue(n->outer_region, c.alt_tree_node->inner_region, c.edge));
        walk(c.alt_tree_node, es, rs, ns, depth + 1);
    }
}
static AltTreeNode *top(AltTreeNode *n) { while (n->parent.alt_tree_node) n = n->parent.alt_tree_node; return n; }
int main(int argc, char **argv) {
    Run run(argc, argv);
    auto &r = run.rng;
    while (run.more()) {
        T t;
        n_cases++;
        std::stringstream ss;
        int nt = r.range(1, 2);
        std::vector<AltTreeNode *> roots;
        set_case("");
        for (int k = 0; k < nt; k++) {
            size_t base = t.nodes.size();
            roots.push_back(t.root(r));
            int sz = r.below(r.pick({1, 3, 6, 14}));
            bool deep = r.chance(40);
            for (int i = 0; i < sz; i++) {
                size_t m = t.nodes.size() - base;
                size_t p = base + (deep ? m - 1 - r.below(std::min<size_t>(m, 2)) : r.below(m));
                ss << "node " << t.nodes.size() << " child of " << p << "\n";
                t.child(r, t.nodes[p]);
            }
        }
        if (t.nodes.size() > 3) n_nontrivial++;
        set_case(ss.str());
        auto id = [&](AltTreeNode *n) { for (size_t i = 0; i < t.nodes.size(); i++) if (t.nodes[i] == n) return (int)i; return -1; };
        std::vector<AltTreeNode *> mine;
        for (auto n : t.nodes) if (top(n) == roots[0]) mine.push_back(n);
        std::multiset<UE> e0, e1;
        std::multiset<void *> r0, r1;
        std::set<AltTreeNode *> n0, n1;
        // root finding, listing, equality
        for (auto n : t.nodes) if (n->find_root() != top(n)) fail("find_root does not return the root");
        { auto l = roots[0]->all_nodes_in_tree();
          std::set<AltTreeNode *> s(l.begin(), l.end());
          if (l.size() != mine.size() || s != std::set<AltTreeNode *>(mine.begin(), mine.end())) fail("all_nodes_in_tree does not list the tree"); }
        if (!(*roots[0] == *roots[0]) || (nt == 2 && *roots[0] == *roots[1])) fail("tree equality is wrong");
        int reroots = r.below(3);
        for (int q = 0; q < reroots; q++) {
            e0.clear(); r0.clear(); n0.clear(); e1.clear(); r1.clear(); n1.clear();
            walk(top(mine[0]), e0, r0, n0);
            auto *x = mine[r.below(mine.size())];
            std::map<AltTreeNode *, void *> outs;
            for (auto n : mine) outs[n] = n->outer_region;
            add_case("re-root at " + std::to_string(id(x)) + "\n");
            x->become_root();
            walk(x, e1, r1, n1);
            if (x->parent.alt_tree_node || x->inner_region) fail("re-rooting must make the node the root");
            if (x->inner_to_outer_edge.loc_from || x->inner_to_outer_edge.loc_to || x->inner_to_outer_edge.obs_mask) fail("a root must have no inner edge");
            if (x->parent.edge.loc_from || x->parent.edge.loc_to || x->parent.edge.obs_mask) fail("a root must have no parent edge");
            if (n0 != n1) fail("re-rooting changed the set of tree nodes");
            if (r0 != r1) fail("re-rooting changed the set of regions");
            if (e0 != e1) fail("re-rooting changed the undirected edges");
            for (auto n : mine) if (outs[n] != n->outer_region) fail("re-rooting moved a growing region");
        }
        // common ancestor
        auto *a = t.nodes[r.below(t.nodes.size())];
        auto *b = t.nodes[r.below(t.nodes.size())];
        if (a != b) {
            add_case("common ancestor of " + std::to_string(id(a)) + " and " + std::to_string(id(b)) + "\n");
            std::set<AltTreeNode *> up;
            for (auto *x = a; x; x = x->parent.alt_tree_node) up.insert(x);
            AltTreeNode *want = b;
            while (want && !up.count(want)) want = want->parent.alt_tree_node;
            e0.clear(); r0.clear(); n0.clear(); e1.clear(); r1.clear(); n1.clear();
            walk(top(a), e0, r0, n0);
            auto *got = a->most_recent_common_ancestor(*b);
            walk(top(a), e1, r1, n1);
            if (e0 != e1 || r0 != r1) fail("finding a common ancestor changed the tree");
            if (got != want) fail(want ? "not the nearest common ancestor" : "an ancestor was reported for nodes of different trees");
            for (auto *x = want; x; x = x->parent.alt_tree_node)
                if (x->visited) fail("a common ancestor's mark was left behind");
            for (auto *n : t.nodes) {   // only nodes strictly below the ancestor on the two paths may keep a mark
                bool on = false;
                for (auto *s : {a, b})
                    for (auto *x = s; x && x != want; x = x->parent.alt_tree_node) on |= x == n;
                if (!on && n->visited) fail("a node off the two paths was marked");
                n->visited = false;
            }
        }
        // pruning
        auto *x = mine[r.below(mine.size())];
        std::vector<AltTreeNode *> path{x};
        while (path.back()->parent.alt_tree_node) path.push_back(path.back()->parent.alt_tree_node);
        size_t k = r.below(path.size());
        AltTreeNode *stop = path[k];
        bool back = r.chance(50);
        add_case("prune from " + std::to_string(id(x)) + " up to " + std::to_string(id(stop)) + (back ? " backward\n" : " forward\n"));
        std::vector<std::pair<void *, CompressedEdge>> want;
        typedef std::tuple<void *, void *, void *, uint64_t> OE;
        std::multiset<OE> orphans;
        std::set<void *> pruned;
        std::vector<GraphFillRegion *> freed;
        for (size_t i = 0; i < k; i++) {
            auto *n = path[i];
            auto rev = [](CompressedEdge e) { return CompressedEdge{e.loc_to, e.loc_from, e.obs_mask}; };
            if (back) {
                want.push_back({n->inner_region, n->inner_to_outer_edge});
                want.push_back({path[i + 1]->outer_region, rev(n->parent.edge)});
            } else {
                want.push_back({n->outer_region, rev(n->inner_to_outer_edge)});
                want.push_back({n->inner_region, n->parent.edge});
            }
            for (auto &c : n->children)
                if (i == 0 || c.alt_tree_node != path[i - 1]) orphans.insert({c.alt_tree_node, c.edge.loc_from, c.edge.loc_to, c.edge.obs_mask});
            pruned.insert(n);
            freed.push_back(n->inner_region);
            freed.push_back(n->outer_region);
        }
        struct Snap { void *in, *out, *par; CompressedEdge ie, pe; std::multiset<OE> ch; };
        std::map<AltTreeNode *, Snap> snap;
        for (auto *n : t.nodes)
            if (!pruned.count(n)) {
                Snap s{n->inner_region, n->outer_region, n->parent.alt_tree_node, n->inner_to_outer_edge, n->parent.edge, {}};
                for (auto &c : n->children)
                    if (!pruned.count(c.alt_tree_node)) s.ch.insert({c.alt_tree_node, c.edge.loc_from, c.edge.loc_to, c.edge.obs_mask});
                snap[n] = s;
            }
        size_t av = t.arena.available.size();
        auto res = x->prune_upward_path_stopping_before(t.arena, stop, back);
        if (t.arena.available.size() != av + k) fail("pruned nodes must be released exactly once");
        for (size_t i = 0; i < k; i++)
            if (std::count(t.arena.available.begin(), t.arena.available.end(), path[i]) != 1) fail("a pruned node was not released");
        if (res.pruned_path_region_edges.size() != want.size()) fail("the pruned path has the wrong number of regions");
        for (size_t i = 0; i < want.size(); i++)
            if (res.pruned_path_region_edges[i].region != want[i].first || res.pruned_path_region_edges[i].edge != want[i].second) fail("the pruned path is out of order or has a wrong edge");
        std::multiset<OE> got;
        for (auto &o : res.orphan_edges) got.insert({o.alt_tree_node, o.edge.loc_from, o.edge.loc_to, o.edge.obs_mask});
        if (got != orphans) fail("orphaned children are not handed over exactly once");
        for (auto *g : freed) if (g->alt_tree_node) fail("a pruned region still refers to a tree node");
        for (auto &[n, s] : snap) {
            std::multiset<OE> ch;
            for (auto &c : n->children) ch.insert({c.alt_tree_node, c.edge.loc_from, c.edge.loc_to, c.edge.obs_mask});
            bool orphan = pruned.count(s.par);
            if (n->inner_region != s.in || n->outer_region != s.out || n->inner_to_outer_edge != s.ie || ch != s.ch) fail("pruning changed the rest of the tree");
            if (!orphan && (n->parent.alt_tree_node != s.par || n->parent.edge != s.pe)) fail("pruning changed the rest of the tree");
        }
    }
    return run.done();
}
