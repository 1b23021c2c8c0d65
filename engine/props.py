"""What decides each property: contract files, /repo translation units whose IR they need, and the
bounded stand-in that searches for concrete failing inputs."""
SB = "/repo/src/pymatching/sparse_blossom/"
CORE = [SB + p for p in (
    "flooder/graph_fill_region.cc", "flooder/detector_node.cc", "flooder/graph.cc", "flooder/graph_flooder.cc",
    "flooder/match.cc", "flooder_matcher_interop/compressed_edge.cc", "flooder_matcher_interop/mwpm_event.cc",
    "flooder_matcher_interop/region_edge.cc", "matcher/alternating_tree.cc", "matcher/mwpm.cc",
    "search/search_detector_node.cc", "search/search_flooder.cc", "search/search_graph.cc",
    "tracker/flood_check_event.cc")]
DRIVER = [SB + "driver/user_graph.cc", SB + "driver/mwpm_decoding.cc", "/repo/src/pymatching/rand/rand_gen.cc"]
G = SB + "flooder/"
I = SB + "flooder_matcher_interop/"
COMMON = [
    "LLVM IR emitted by clang 18 at -O0 (then mem2reg) represents the C++ source; x86-64 layout",
    "heap objects of different classes do not overlap and raw pointer arguments point to live objects of their class",
    "std::vector is modelled by length plus element map (its libstdc++ growth code is not executed); lengths < 2^40",
    "no allocation failure; diagnostic string building does not throw and has no effect on program state",
]
S = SB + "search/"
ALL = CORE + DRIVER
D1 = "complete decodes of random graphs, every matcher event: "
P = {
 "C01": dict(vc=["c01"], tus=[SB + "driver/mwpm_decoding.cc", SB + "matcher/mwpm.cc"], level="other",
     explain="contracts discharged for what surrounds the event loop of a decode: each given detection event is decoded once, invalid input and imperfect matchings are rejected, and the result combines the matching of every event once (as observables and weight, and as pairs). The event loop's steps are under contract in C02-C09 and C12; that these steps compose to a minimum-weight matching (LP duality) is not mechanised: a bounded stand-in compares whole decodes with an exact minimum",
     assume=["C01: the detection events of a shot are pairwise different; no node carries state of an earlier decode (C13)",
             "C01: optimality of the composed steps is not proved (bounded stand-in only)"], native=[("decode", "-DCAT=1", D1 + "weight, observables and matched pairs against an exact subset-DP minimum (or the dual certificate)")]),
 "C02": dict(vc=["c02"], tus=[], limit=600, first=["c02_dequeue_later"], assume=[
     "C02 specification variables: a queue whose size is not zero has a first non-empty bucket and a smallest time in it (their existence is not derived from the sum)",
     "C02: presence of each queued event is tracked for one arbitrary event; identical events (same node, time and type) are not counted apart - the total count is exact",
     "C02: the 64-bit current time stays below 2^60"], native=[("queue", "", "histories of enqueue/dequeue/clear/reset against a multiset of unwrapped times", [])]),
 "C03": dict(vc=["c03"], tus=[], fuzz=True, native=[]),
 "C04": dict(vc=["c04"], tus=[], fuzz=True, native=[]),
 "C05": dict(vc=["c05"], tus=[], native=[("tracker", "", "request/withdraw/dequeue histories against a reference tracker", [])]),
 "C06": dict(vc=["c06"], tus=[G + "graph_flooder.cc"], limit=500, level="other", first=["c06_next_growing", "c06_next_other"],
     explain="contracts discharged for find_next_event_at_node_returning_neighbor_index_and_time (all neighbourhoods, unbounded loops), reschedule_events_at_detector_node and local_radius; that every affected node is rescheduled during a decode (wake-up completeness) is a bounded stand-in",
     assume=["C06: radii and wrapped radii stay below 2^58 in magnitude; a boundary neighbour is only ever the first one (C10)"], native=[("nextevent", "", "random neighbourhood states against a reference scan"), ("decode", "-DCAT=2", D1 + "wake-up completeness")]),
 "C07": dict(vc=["c07"], tus=[G + "graph_flooder.cc", G + "detector_node.cc", G + "graph_fill_region.cc", I + "mwpm_event.cc", SB + "tracker/flood_check_event.cc"], level="other",
     explain="contracts discharged for every flooder function that changes ownership or reports an interaction: region start, arrival, retreat, shrink scheduling, neighbour/boundary/implosion/shatter notifications, wrapped radius, heir, direction changes, blossom nesting, event dispatch; the traversal of nested blossoms is by induction (the recursive call is replaced by its contract). That these compose over a whole decode is a bounded stand-in",
     assume=["C07: recursion over nested blossoms is replaced by its own contract (induction on nesting depth; termination and acyclicity of nesting are not proved)",
             "C07: times and radii stay below 2^58 in magnitude; clock readings compared by a tracker are not exactly half a cycle apart",
             "C07: tree edges, alternating-tree nodes and owner chains pointed to are live"], native=[("decode", "-DCAT=4", D1 + "region bookkeeping")]),
 "C08": dict(vc=["c08"], tus=[SB + "matcher/alternating_tree.cc", I + "compressed_edge.cc", G + "graph_fill_region.cc"], limit=600, first=["c08_prune_v0", "c08_prune_v1", "c08_ancestor"], level="other",
     explain="contracts discharged for every operation of an alternating tree: the three ways of making a node, adding a child, finding the root, re-rooting (by induction on the way to the root), the most recent common ancestor, and pruning the way up to an ancestor (any length, any number of children); that these compose over a whole decode is a bounded stand-in",
     assume=["C08: re-rooting is by induction: its recursive call on the parent is replaced by its own contract; finite depth of a tree is given by a specification function",
             "C08: the common ancestor is asked for two different nodes whose trees carry no marks; a parent lists each child once",
             "C08: pruning is called with an ancestor; the nodes on the way up to it are pairwise different, and the pool's del() is represented by its contract (C15)"], native=[("tree", "", "operations on random alternating trees against a reference model"), ("decode", "-DCAT=8", D1 + "tree structure")]),
 "C09": dict(vc=["c09"], tus=[SB + "matcher/mwpm.cc", SB + "matcher/alternating_tree.cc", G + "graph_fill_region.cc", I + "compressed_edge.cc", G + "match.cc", I + "mwpm_event.cc"], limit=600, first=["c09_shatter_v1", "c09_shatter_v2", "c09_shatter_v3", "c09_shatter_v0", "c09_self"], level="other",
     explain="contracts discharged for every matcher function that changes the state of a region: matching two regions, new events, all collision handlers, dissolving a tree, forming a blossom, dissolving one (all cycle lengths and positions), the event dispatch, and both ways of taking the matching out; recursion is by induction. That these compose over a whole decode (every region reachable, no region in two trees) is a bounded stand-in",
     assume=["C09: recursion over trees and nested blossoms is replaced by its own contract (induction on depth; termination and acyclicity are not proved)",
             "C09: a blossom has an odd number (at least 3) of pairwise different regions, its tree node has a parent that lists it once, and the node a new tree node is placed in is not in use (C15)",
             "C09: taking a pair apart does not touch the other regions of the same cycle (disjointness of subtrees)"], native=[("decode", "-DCAT=24", D1 + "matches, trees and blossoms")]),
 "C10": dict(vc=["c10"], tus=[G + "graph.cc", G + "detector_node.cc", S + "search_graph.cc", S + "search_detector_node.cc"], limit=500, first=["c10_edge", "c10_sedge"], level="other",
     explain="contracts discharged for the four functions that put an edge into the matching graph or the search graph (any graph, any list of observables, unbounded loops): where it is stored, weight, observables, boundary first, rejection, frame; and for the two functions that toggle the sets of negative-weight nodes and observables. The implied-weight records are bounded stand-ins",
     assume=["C10: a weight is not INT32_MIN and observable indices are below the graph's number of observables",
             "C10: std::set is represented by contracts that follow the membership of one arbitrary value; the implied-weight records (std::map of vectors) are represented by contracts and run by the stand-in only"],
     native=[("graph", "", "edge-insertion histories against a reference model")]),
 "C11": dict(vc=["c11"], tus=[G + "graph.cc", G + "detector_node.cc"],
     assume=["C11: implied weights name both directions of one edge (or a boundary edge) and the two directions start with equal weights (convert_implied_weights uses floating point and is checked by the stand-in)",
             "C11: the loop of reweight_for_edges over pairs is covered by the stand-in; each pair's reweight_for_edge is proved"], native=[("reweight", "", "reweight/undo histories against a map of weights")]),
 "C12": dict(vc=["c12"], tus=[S + "search_flooder.cc", S + "search_detector_node.cc", SB + "tracker/flood_check_event.cc"], limit=600, first=["c12_next"], level="other",
     explain="contracts discharged for every search function except the source-ordered visitor (next interaction, start, extension, looking at a node, the event loop, tracing back to a source, both half paths, reversal, reset); that the local steps compose to a shortest path (the usual Dijkstra argument) and the order from the source are bounded stand-ins",
     assume=["C12: no collision is overdue when a node is looked at, and a path through an edge between two searches has even length (weights are even): preconditions of the next-interaction contract",
             "C12: distances and times stay below 2^56; predecessor chains are finite"], native=[("search", "", "sequences of searches against exact shortest distances")]),
 "C13": dict(vc=["c13"], tus=[SB + "matcher/mwpm.cc", G + "detector_node.cc", G + "graph_fill_region.cc", S + "search_detector_node.cc"], level="other",
     explain="contracts discharged for the state each reset function restores (detector node, search node, a region's own and other members' matches) and for Mwpm::reset over every node of both graphs. That a decode after a reset gives the same result as a fresh decoder is a bounded stand-in",
     assume=["C13: clearing the event queues is C02's contract and emptying the pools is C15's; both are represented by contracts here"],
     native=[("decode", "-DCAT=32", "decode/reset histories, state compared with a new decoder")]),
 "C14": dict(vc=["c14"], tus=[SB + "matcher/mwpm.cc", SB + "driver/mwpm_decoding.cc"], level="other",
     explain="contracts discharged for combining results, expanding an observable mask into bits and back, and collecting observables along the paths of all matched pairs (unbounded loops). The path visitor is represented by its contract; whole decodes are a bounded stand-in",
     assume=["C14: the path visitor iter_edges_on_shortest_path_from_middle is represented by its contract (C12) applied to one arbitrary edge per pair; parity of the edges visited is a specification function",
             "C14: the bits of a prediction that is turned into a mask are 0 or 1"],
     native=[("pairs", "", "pair expansion, result combination and mask conversion against exact distances and parities", ALL)]),
 "C15": dict(vc=["c15"], tus=[], level="other",
     explain="contracts discharged for taking an object from the pool (recycled or new) and giving it back; that all memory is released when the pool is destroyed, and histories of operations, are bounded stand-ins",
     assume=["C15: malloc returns a fresh non-null block"],
     native=[("arena", "", "pool histories with instrumented objects and allocations", [])]),
 "C16": dict(vc=[], tus=[], native=[("usergraph", "", "edge-insertion and conversion histories against a reference model", ALL)]),
 "C17": dict(vc=["c17"], tus=[SB + "driver/mwpm_decoding.cc", SB + "matcher/mwpm.cc"], limit=400, first=["c17_events"], level="other",
     explain="contracts discharged for everything the decoding entry points do around the event loop: which events are decoded (given events against those of negative edges, marks, rejection and reset), taking the matching out for a list of events, and putting observables and weight together in both output forms and for pairs, with and without reweighting. That the result is the minimum over all error sets is a bounded stand-in (as C01)",
     assume=["C17: the detection events of a shot are pairwise different, and so are the stored events of negative edges, which are nodes of the graph and never boundary nodes (copied from a std::set; C10, C16)",
             "C17: event loop (run_until_next_mwpm_notification, process_event), reset and creation of events are represented by their contracts (C07, C09, C13); copying the sets into vectors (sync_negative_weight_...) is run by the stand-in only"],
     native=[("negweights", "", "decodes against enumeration of all error sets (at most 12 edges); invalid events", ALL)]),
}
