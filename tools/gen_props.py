#!/usr/bin/env python3
# Writes properties.jsonl (run by hand when the property list changes; the output is committed).
import json
B="src/pymatching/sparse_blossom/"
def P(id,title,statement,over,qtext,why,files,mech,**kw):
    a={"files":[B+f for f in files],"mechanism":[{"name":n,"where":B+w} for n,w in mech]}
    a.update(kw)
    return {"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":qtext},"why_tests_cant":why,"anchors":a}
L=[
P("C01","Decoding returns a minimum-weight perfect matching",
"For every matching graph with even non-negative integer edge weights and at most one edge between any two nodes, and every set of detection events that can be perfectly matched to each other or to the boundary, decoding terminates, matches every detection event exactly once, and reports a total weight that is the minimum over all perfect matchings. The reported observables are exactly those crossed an odd number of times by some matching of that minimum weight, and the list of matched pairs reported for the same input has the same total weight and observables.",
["inputs","histories"],"all matching graphs with even weights below 2^25, all matchable detection-event sets",
"The tests decode a few fixed graphs with stored answers; the guarantee is over all graphs, all weights (including ties, zero weights and very long paths) and all event orders.",
["matcher/mwpm.cc","matcher/mwpm.h","flooder/graph_flooder.cc","flooder/graph_fill_region.cc","flooder/detector_node.cc","matcher/alternating_tree.cc"],
[("event loop","flooder/graph_flooder.cc:run_until_next_mwpm_notification"),("matcher event handlers","matcher/mwpm.cc:process_event"),("match extraction","matcher/mwpm.cc:shatter_blossom_and_extract_matches")]),
P("C02","Event queue delivers every event exactly once, in cyclic time order",
"Every event put into the queue at a time that is not before the queue's current time and less than half a clock cycle ahead of it is handed out exactly once, unchanged, and never after an event with a later time; the current time becomes the time of the event handed out and never moves backwards. The reported size and emptiness always match the number of events still inside, an empty queue hands out the 'no event' marker and stays unchanged, and clearing or resetting leaves it empty (with time zero after a reset).",
["histories"],"all interleavings of enqueue, dequeue, clear and reset, all 64-bit current times including 32-bit clock wrap-around",
"The behaviour depends on the whole history of operations and on the current time modulo 2^32; tests run a few short histories near time zero.",
["tracker/radix_heap_queue.h","tracker/flood_check_event.h"],
[("enqueue","tracker/radix_heap_queue.h:enqueue"),("dequeue","tracker/radix_heap_queue.h:dequeue"),("clear/reset","tracker/radix_heap_queue.h:clear")],state="33 buckets of events, current time, count"),
P("C03","Cyclic time comparison, arithmetic and widening are exact",
"For any two clock readings less than half a cycle apart, the cyclic comparisons agree with the comparison of the true times, exactly one of before/equal/after holds, and addition and subtraction agree with the true sum and difference modulo the cycle. Widening a clock reading against a full-width reference time returns the unique time within half a cycle of the reference whose low bits equal the reading, for every unsigned width.",
["inputs"],"all values of every unsigned width (8, 16, 32, 64 bit) and all 64-bit reference times",
"There are 2^64 and more input combinations and the failures sit on wrap-around and half-cycle edges.",
["tracker/cyclic.h"],[("comparisons","tracker/cyclic.h:operator<"),("widening","tracker/cyclic.h:widen_from_nearby_reference")]),
P("C04","Time-varying radius arithmetic is exact",
"A radius that is growing, shrinking or frozen always evaluates to its intercept plus, minus, or independent of the time; changing its direction at a time keeps its value at that time; and adding or subtracting an offset shifts the value at every time by exactly that offset without changing direction. Zero-crossing times, direction queries, collision queries and equality agree with the line the radius represents, for every value and time that fits the representation.",
["inputs"],"all radii, offsets and times whose results fit the packed representation (62-bit and 30-bit intercepts)",
"Exactness is over a 2^64 value space with sign and packing edge cases; tests use a dozen small numbers.",
["flooder_matcher_interop/varying.inl","flooder_matcher_interop/varying.h"],
[("packing","flooder_matcher_interop/varying.inl"),("direction change","flooder_matcher_interop/varying.inl:then_growing_at_time")]),
P("C05","A wanted wake-up is never lost and never acted on twice",
"If a wake-up was requested and not withdrawn, the queue always holds an outstanding event for it no later than the requested time, and when events are handed out in time order the wake-up is approved exactly once and exactly at the most recently requested time. Stale, withdrawn or superseded events are rejected, a rejected event is put back at the later requested time only when that is needed, and no other event is added to the queue.",
["histories"],"all sequences of request, withdraw, clear and hand-out operations on one tracker, all cyclic times",
"The tracker's promise is about arbitrary histories of reschedules and stale events; tests replay two or three of them.",
["tracker/queued_event_tracker.h"],
[("request","tracker/queued_event_tracker.h:set_desired_event"),("decision","tracker/queued_event_tracker.h:dequeue_decision")]),
P("C06","The next interaction at a node is the earliest possible one",
"For every node and every state of its neighbourhood, the next scheduled interaction is the earliest time at which its region reaches the boundary, an empty neighbour or a neighbour owned by another region, or at which a growing neighbour reaches it; no edge that will collide is skipped and no edge between nodes of the same owner or with a shrinking region is chosen. The wake-up that is scheduled carries exactly that time, and when there is no such interaction any pending wake-up is withdrawn.",
["inputs"],"all degrees, weights, ownerships and radii (growing, frozen, shrinking) of a node and its neighbours",
"A missed or late collision only shows for particular combinations of degree, neighbour order and radius directions.",
["flooder/graph_flooder.cc","flooder/detector_node.h"],
[("next event","flooder/graph_flooder.cc:find_next_event_at_node_returning_neighbor_index_and_time"),("rescheduling","flooder/graph_flooder.cc:reschedule_events_at_detector_node"),("node event","flooder/graph_flooder.cc:do_look_at_node_event")]),
P("C07","Regions track ownership, path source, observables and radius exactly",
"When a region starts at, grows into or retreats from a node, that node records exactly the owning region, the detection event it was reached from, the parity of observables along that path and the radius at arrival (or nothing after a retreat), and its remaining radius equals the total growth of all enclosing regions since arrival. Collision, boundary, shrink-to-a-point and shatter notifications name the right top-level regions, the right pair of detection events and the parity of observables on the joining path. Becoming growing, frozen or shrinking changes only the direction of the radius at the current time and the wake-ups that depend on it.",
["inputs","histories"],"all nodes, regions, blossom nesting depths and times",
"The bookkeeping must be right at every nesting depth and for every growth history; tests exercise depth one or two on small graphs.",
["flooder/graph_flooder.cc","flooder/graph_fill_region.cc","flooder/detector_node.cc","flooder_matcher_interop/compressed_edge.cc","flooder_matcher_interop/mwpm_event.cc"],
[("arrival","flooder/graph_flooder.cc:do_region_arriving_at_empty_detector_node"),("retreat","flooder/graph_flooder.cc:do_region_shrinking"),("collision","flooder/graph_flooder.cc:do_neighbor_interaction"),("wrapped radius","flooder/detector_node.cc:compute_wrapped_radius"),("wrap/unwrap","flooder/graph_fill_region.cc:wrap_into_blossom")]),
P("C08","Alternating-tree operations keep the tree well formed",
"Re-rooting, adding a child, pruning a path to an ancestor and finding a common ancestor act correctly on every tree: parent and child links always mirror each other with reversed edges, re-rooting keeps the set of undirected edges and regions and makes the chosen node the root, and the common ancestor found is the nearest one (or none if the trees differ). Pruning returns the cycle of regions and edges in order, hands over every orphaned child exactly once, and leaves the rest of the tree untouched.",
["inputs"],"all alternating trees (any size, depth and branching)",
"Trees are unbounded; the tests use trees of at most a handful of nodes.",
["matcher/alternating_tree.cc","matcher/alternating_tree.h"],
[("re-rooting","matcher/alternating_tree.cc:become_root"),("ancestor","matcher/alternating_tree.cc:most_recent_common_ancestor"),("pruning","matcher/alternating_tree.cc:prune_upward_path_stopping_before"),("child links","matcher/alternating_tree.cc:add_child")]),
P("C09","Matcher events keep matches mutual and trees, blossoms consistent",
"Whatever interaction is reported (tree meets tree, match, boundary match, boundary or itself, or a blossom shatters), afterwards every affected region is in exactly one state: growing or shrinking inside exactly one tree, or frozen and matched mutually with reversed edges, or wrapped in exactly one blossom. A shattered blossom's cycle is split into an odd path put into the tree in alternating order and adjacent pairs matched along cycle edges, and the final extraction releases every region once and adds each radius and match edge exactly once.",
["inputs","histories"],"all event kinds, tree shapes, odd cycle lengths, entry/exit positions and nesting depths",
"Cycle length, entry/exit positions and nesting give unboundedly many cases; tests fix a few.",
["matcher/mwpm.cc","flooder/graph_fill_region.cc"],
[("dispatch","matcher/mwpm.cc:handle_region_hit_region"),("blossom formation","matcher/mwpm.cc:handle_tree_hitting_self"),("shattering","matcher/mwpm.cc:handle_blossom_shattering"),("extraction","matcher/mwpm.cc:shatter_blossom_and_extract_matches")]),
P("C10","Matching and search graphs store exactly the edges they are given",
"Adding an edge records it symmetrically at both ends with the absolute weight and the exact observables (as a parity mask when there are at most 64), self-loops are not stored, a boundary edge is always the first neighbour, and no other stored edge changes. Negative weights flip exactly the endpoints and observables of the edge in the record of always-present errors and add to the negative weight total, and out-of-range nodes (and, in the matching graph, a second boundary edge) are rejected without changing the stored edges.",
["inputs","histories"],"all sequences of edge insertions with any endpoints, signed weights and observable lists",
"The guarantee is over all insertion histories, signs, observable multiplicities and node degrees.",
["flooder/graph.cc","search/search_graph.cc","flooder/graph_flooder.cc"],
[("add edge","flooder/graph.cc:add_edge"),("add boundary edge","flooder/graph.cc:add_boundary_edge"),("search graph edges","search/search_graph.cc:add_edge"),("negative weights","flooder/graph.cc:update_negative_weight_detection_events")]),
P("C11","Correlated reweighting only lowers weights and undo restores them exactly",
"Applying implied weights replaces an edge weight exactly when the implied weight is strictly lower, always on both directions of the edge, and touches no other weight. Undoing restores every weight to its value before the first reweighting, whatever sequence of reweightings (including repeated ones of the same edge) was applied, and leaves nothing to undo.",
["inputs","histories"],"all weight assignments, rule lists with repeated and overlapping edges, and reweighting histories",
"Exact restoration depends on undo order over arbitrary repeated reweightings; tests apply one or two.",
["flooder/graph.h","flooder/graph.cc","search/search_graph.h","search/search_graph.cc"],
[("apply","flooder/graph.h:apply_reweights"),("undo","flooder/graph.cc:undo_reweights"),("search graph","search/search_graph.cc:undo_reweights")]),
P("C12","Shortest-path search returns a genuine shortest path",
"For any two distinct connected nodes of a graph without parallel edges, or a node connected to the boundary, the search visits each edge of one simple path between them exactly once, and the total weight of that path is the minimum over all paths; visiting from the source yields the edges in order starting at the source. Afterwards no node is marked as reached, no wake-up is pending and the search queue is empty, so the result never depends on earlier searches.",
["inputs","histories"],"all search graphs with even weights, all source/target pairs and sequences of searches",
"Ties, zero weights, collisions in the middle of an edge and repeated searches give unboundedly many cases.",
["search/search_flooder.cc","search/search_flooder.h","search/search_detector_node.cc"],
[("next event","search/search_flooder.cc:find_next_event_at_node_returning_neighbor_index_and_time"),("exploration","search/search_flooder.cc:do_look_at_node_event"),("trace back","search/search_flooder.h:iter_edges_tracing_back_from_collision_edge"),("reset","search/search_flooder.cc:reset")]),
P("C13","Decoding leaves no trace: results do not depend on earlier decodes",
"After a decode completes, or after an explicit reset at any point of a decode, every node is unowned, unreached and without a pending wake-up, the queue is empty and no region or tree node is still in use, while the stored edges and weights are untouched. Decoding the same detection events again therefore gives the same result as on a freshly built decoder.",
["histories"],"all sequences of decodes and resets, interrupted at any event",
"Leftover state shows only for particular decode sequences or interruption points.",
["matcher/mwpm.cc","flooder/detector_node.cc","flooder/graph_fill_region.cc","tracker/radix_heap_queue.h","search/search_detector_node.cc"],
[("node reset","flooder/detector_node.cc:reset"),("shell cleanup","flooder/graph_fill_region.cc:cleanup_shell_area"),("full reset","matcher/mwpm.cc:reset")]),
P("C14","Matched pairs expand to the right observables and weight",
"Expanding matched pairs into paths flips each observable once for every time a path edge crosses it and adds each path edge's weight exactly once, for any number of observables, adding to whatever the output already holds. Combining partial results XORs the observables and sums the weights; converting between observable masks and bit vectors is exact in both directions for up to 64 observables.",
["inputs"],"all matchings, path lengths, observable counts (including more than 64) and prior output contents",
"Which observables are involved, parity of crossings and mask widths above 32 bits are not sampled by tests.",
["matcher/mwpm.cc","driver/mwpm_decoding.cc"],
[("path extraction","matcher/mwpm.cc:extract_paths_from_match_edges"),("result sums","matcher/mwpm.cc:operator+="),("mask conversion","driver/mwpm_decoding.cc:bit_vector_to_obs_mask")]),
P("C15","Object pools never hand out an object that is still in use",
"The pool hands out each object to at most one user at a time: an object is available again only after it is returned, returned objects are reused before new memory is requested, and default construction always yields a fresh initial state. Destroying the pool destroys each object still in use exactly once, destroys no returned object again, and frees every allocation exactly once.",
["histories"],"all sequences of allocation and return, and destruction at any point",
"Double hand-out or double destruction depends on the allocation history.",
["arena.h"],[("allocation","arena.h:alloc_unconstructed"),("return","arena.h:del"),("destruction","arena.h:~Arena")]),
P("C16","User-graph edges merge by the chosen strategy and discretise faithfully",
"Adding an edge parallel to an existing one follows the chosen strategy exactly: rejected, left as is, replaced, minimum-weight kept, or combined as independent errors (keeping the first edge's observables), in either orientation, with node and observable counts always covering every stored edge. Conversion to integer weights maps every edge to an even integer nearest to weight times a common scale, never exceeding the maximum, preserving sign and using one half-scale for all edges, and invalid or out-of-range endpoints are rejected.",
["inputs","histories"],"all insertion sequences, strategies, orientations, weights and probabilities",
"The combinations of strategy, orientation, boundary kind and weight range are unbounded and this layer's tests need a dependency that is absent here.",
["driver/user_graph.cc","driver/user_graph.h"],
[("merging","driver/user_graph.cc:merge_edge_or_boundary_edge"),("independent combination","driver/user_graph.cc:merge_weights"),("discretisation","driver/user_graph.cc:get_edge_weight_normalising_constant")]),
P("C17","Decoding with negative weights equals minimum over all error sets",
"For graphs with negative edge weights the decoder returns the observables and weight of a minimum-weight error consistent with the detection events: the always-present negative edges' endpoints, observables and total weight are combined with the matching of the remaining events. Out-of-range detection indices are rejected with an error and the decoder stays usable for later decodes with unchanged results.",
["inputs","histories"],"all signed weights, all detection-event sets including invalid ones, all decode sequences",
"Needs the combination of negative weights, event parity and failure histories, in a layer whose tests cannot be built here.",
["driver/mwpm_decoding.cc","flooder/graph_flooder.cc","flooder/graph.cc"],
[("toggle of negative-edge events","driver/mwpm_decoding.cc:process_timeline_until_completion"),("combination","driver/mwpm_decoding.cc:decode_detection_events_for_up_to_64_observables"),("sync","flooder/graph_flooder.cc:sync_negative_weight_observables_and_detection_events")]),
P("C18","Python front end loads check matrices and graphs faithfully",
"Loading a check matrix, graph library object or detector error model through the Python package yields the matching graph the input describes, and decoding through Python returns the same result as the native decoder.",
["inputs"],"all matrices, graphs and error models",
"Input space is unbounded.",
["driver/user_graph.pybind.cc"],[("bindings","driver/user_graph.pybind.cc")]),
P("C19","Command line and error-model input/output is faithful",
"Reading detector error models and detection data through the command line and writing predictions uses exactly the given formats and one prediction per shot.",
["inputs"],"all error models and shot files","Input space is unbounded.",
["driver/namespaced_main.cc"],[("command line","driver/namespaced_main.cc")]),
]
with open("/verif/properties.jsonl","w") as f:
    for p in L: f.write(json.dumps(p)+"\n")
for p in L:
    assert len(p["title"])<=80,p["title"]
    print(p["id"],len(p["title"]))
