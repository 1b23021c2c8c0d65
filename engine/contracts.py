"""Which callee contracts (stubs in /verif/vc) replace which callees while a caller is checked.
A stub name starting with "rec:" replaces only recursive calls (induction on the depth of recursion)."""
import re
ENQ = r"pm::radix_heap_queue<.*>::enqueue\("
FLOOD = r"^pm::GraphFlooder::"
R = [
    # (harness regex, callee regex on the demangled name, stub function)
    (r"^c05_", ENQ, "contract_enqueue"),
    (r"^c06_(reschedule|look)", ENQ, "contract_enqueue"),
    (r"^c06_(reschedule|look)", r"find_next_event_at_node_returning_neighbor_index_and_time\(", "contract_find_next"),
    (r"^c07_", ENQ, "contract_enqueue"),
    (r"^c07_", FLOOD + r"reschedule_events_at_detector_node\(", "contract_reschedule"),
    (r"^c07_look", r"find_next_event_at_node_returning_neighbor_index_and_time\(", "contract_find_next"),
    (r"^c07_look", FLOOD + r"do_neighbor_interaction\(", "contract_neighbor"),
    (r"^c07_neighbor", FLOOD + r"do_region_arriving_at_empty_detector_node\(", "contract_arriving"),
    (r"^c07_neighbor", r"pm::DetectorNode::index_of_neighbor\(", "contract_index_of"),
    (r"^c07_(arriving|wrap_|clear_)", r"pm::DetectorNode::compute_wrapped_radius\(", "contract_wrapped"),
    (r"^c07_(shatter|shrinking)", r"pm::DetectorNode::heir_region_on_shatter\(", "contract_heir"),
    (r"^c07_shrinking", FLOOD + r"schedule_tentative_shrink_event\(", "contract_schedule_shrink"),
    (r"^c07_set_shrinking", FLOOD + r"schedule_tentative_shrink_event\(", "contract_schedule_shrink"),
    (r"^c07_set_", r"do_op_for_each_node_in_total_area<", "rec:contract_each_node"),
    (r"^c07_(wrap_|clear_)", r"do_op_for_each_descendant_and_self<", "rec:contract_each_region"),
    (r"^c07_dequeue_valid", r"pm::radix_heap_queue<.*>::dequeue\(", "contract_dequeue"),
    (r"^c07_(dequeue_valid|run)", FLOOD + r"dequeue_decision\(", "contract_decision"),
    (r"^c07_run", FLOOD + r"dequeue_valid\(", "contract_dequeue_valid"),
    (r"^c07_run", FLOOD + r"process_tentative_event_returning_mwpm_event\(", "contract_process"),
    (r"^c11_reweight", r"pm::DetectorNode::index_of_neighbor\(", "contract_index_of"),
    (r"^c11_reweight", r"^pm::apply_reweights\(", "contract_apply"),
    (r"^c12_", ENQ, "contract_enqueue"),
    (r"^c12_(reschedule|look)", r"^pm::SearchFlooder::find_next_event_at_node", "contract_find_next"),
    (r"^c12_look", r"pm::SearchDetectorNode::index_of_neighbor\(", "contract_index_of"),
    (r"^c12_look", r"^pm::SearchFlooder::do_search_exploring_empty_detector_node\(", "contract_exploring"),
    (r"^c12_(start|explore)", r"^pm::SearchFlooder::reschedule_events_at_search_detector_node\(", "contract_reschedule"),
    (r"^c12_run", r"^pm::SearchFlooder::do_search_starting_at_empty_search_detector_node\(", "contract_starting"),
    (r"^c12_run", r"^pm::SearchFlooder::do_look_at_node_event\(", "contract_look"),
    (r"^c12_run", r"pm::radix_heap_queue<.*>::dequeue\(", "contract_dequeue"),
    (r"^c12_collision", r"pm::SearchFlooder::iter_edges_on_path_traced_back_from_node<", "contract_trace"),
    (r"^c12_middle", r"pm::SearchFlooder::run_until_collision\(", "contract_run"),
    (r"^c12_middle", r"pm::SearchFlooder::iter_edges_tracing_back_from_collision_edge<", "contract_collision"),
    (r"^c12_middle", r"^pm::SearchFlooder::reset\(", "contract_reset"),
    (r"^c12_reverse", r"pm::SearchDetectorNode::index_of_neighbor\(", "contract_index_of"),
    (r"^c12_reset$", r"^pm::SearchFlooder::reset_graph\(", "contract_reset_graph"),
    (r"^c12_reset$", r"pm::radix_heap_queue<.*>::reset\(", "contract_reset_queue"),
    (r"^c09_", FLOOD + r"set_region_frozen\(", "contract_frozen"),
    (r"^c09_", FLOOD + r"set_region_growing\(", "contract_growing"),
    (r"^c09_", FLOOD + r"set_region_shrinking\(", "contract_shrinking"),
    (r"^c09_", r"^pm::AltTreeNode::become_root\(", "contract_become_root"),
    (r"^c09_shatter_desc", r"^pm::Mwpm::shatter_descendants_into_matches_and_freeze\(", "rec:contract_shatter_child"),
    (r"^c09_(boundary|other)", r"^pm::Mwpm::shatter_descendants_into_matches_and_freeze\(", "contract_shatter"),
    (r"^c09_", r"^pm::Arena<pm::AltTreeNode>::del\(", "contract_del_tree"),
    (r"^c09_", r"^pm::Arena<pm::GraphFillRegion>::del\(", "contract_del_region"),
    (r"^c09_", r"^pm::Arena<pm::AltTreeNode>::alloc_unconstructed\(", "contract_alloc_tree"),
    (r"^c09_", r"^pm::Arena<pm::GraphFillRegion>::alloc_default_constructed\(", "contract_alloc_region"),
    (r"^c09_create_event", FLOOD + r"do_region_created_at_empty_detector_node\(", "contract_created"),
    (r"^c09_match", r"^pm::Mwpm::make_child\(", "contract_make_child"),
    (r"^c09_dispatch", r"^pm::AltTreeNode::most_recent_common_ancestor\(", "contract_mrca"),
    (r"^c09_dispatch", r"^pm::Mwpm::handle_tree_hitting_other_tree\(", "contract_h_other"),
    (r"^c09_dispatch", r"^pm::Mwpm::handle_tree_hitting_self\(", "contract_h_self"),
    (r"^c09_dispatch", r"^pm::Mwpm::handle_tree_hitting_match\(", "contract_h_match"),
    (r"^c09_dispatch", r"^pm::Mwpm::handle_tree_hitting_boundary_match\(", "contract_h_bmatch"),
    (r"^c09_process", r"^pm::Mwpm::handle_region_hit_region\(", "contract_p_rr"),
    (r"^c09_process", r"^pm::Mwpm::handle_tree_hitting_boundary\(", "contract_p_rb"),
    (r"^c09_process", r"^pm::Mwpm::handle_blossom_shattering\(", "contract_p_bs"),
    (r"^c09_self", r"^pm::AltTreeNode::prune_upward_path_stopping_before\(", "contract_prune"),
    (r"^c09_self", FLOOD + r"create_blossom\(", "contract_create_blossom"),
    (r"^c09_self", r"^pm::AltTreeNode::add_child\(", "contract_add_child"),
    (r"^c09_shatter_v", r"^pm::GraphFillRegion::clear_blossom_parent\(", "contract_unwrap"),
    (r"^c09_shatter_v", r"^pm::Mwpm::make_child\(", "contract_make_child_on_way"),
    (r"^c09_shatter_v", r"^pm::GraphFillRegion::add_match\(", "contract_pair"),
    (r"^c09_shatter_v", r"pm::GraphFillRegion::do_op_for_each_node_in_total_area<", "each:contract_area"),
    (r"^c09_shatter_v", FLOOD + r"reschedule_events_at_detector_node\(", "contract_reschedule"),
    (r"^c09_shatter_v", r"^pm::AltTreeNode::add_child\(", "contract_add_child_last"),
    (r"^c09_take_pairs", r"^pm::GraphFillRegion::clear_blossom_parent_ignoring_wrapped_radius\(", "contract_unwrap_quiet"),
    (r"^c09_take_pairs", r"^pm::GraphFillRegion::add_match\(", "contract_pair_rest"),
    (r"^c09_take_pairs", r"^pm::Mwpm::shatter_blossom_and_extract_matches\(", "contract_take"),
    (r"^c09_take_pairs", r"^pm::Mwpm::shatter_blossom_and_extract_match_edges\(", "contract_take_edges"),
    (r"^c09_take_(match|edges)", r"^pm::GraphFillRegion::cleanup_shell_area\(", "contract_cleanup"),
    (r"^c09_take_(match|edges)", r"^pm::Mwpm::pair_and_shatter_subblossoms_and_extract_matches\(", "contract_split"),
    (r"^c09_take_(match|edges)", r"^pm::Mwpm::pair_and_shatter_subblossoms_and_extract_match_edges\(", "contract_split_edges"),
    (r"^c09_take_(match|edges)", r"^pm::Mwpm::shatter_blossom_and_extract_matches\(", "rec:contract_rest"),
    (r"^c09_take_(match|edges)", r"^pm::Mwpm::shatter_blossom_and_extract_match_edges\(", "rec:contract_rest_edges"),
    (r"^c08_become_root", r"^pm::AltTreeNode::become_root\(", "rec:contract_parent_root"),
    (r"^c13_reset$", r"^pm::radix_heap_queue<false>::(clear|reset)\(\)", "contract_queue_clear"),
    (r"^c13_reset$", r"^pm::Arena<pm::AltTreeNode>::~Arena\(", "contract_tree_pool"),
    (r"^c13_reset$", r"^pm::Arena<pm::GraphFillRegion>::~Arena\(", "contract_region_pool"),
    (r"^c10_[es]?b?edge", r"MatchingGraph::update_negative_weight_observables\(", "contract_neg_obs"),
    (r"^c10_[es]?b?edge", r"MatchingGraph::update_negative_weight_detection_events\(", "contract_neg_node"),
    (r"^c10_", r"^std::map<unsigned long, std::vector<std::vector<pm::ImpliedWeightUnconverted.*::operator\[\]\(", "contract_rules_of"),
    (r"^c10_sbedge", r"^std::vector<std::vector<unsigned long,.*::insert\(.*, unsigned long, ", "contract_obs_insert"),
    (r"^c10_", r"std::vector<std::vector<pm::ImpliedWeight.*::insert\(.*, unsigned long, ", "contract_rules_insert"),
    (r"^c10_", r"std::vector<std::vector<pm::ImpliedWeight.*::(push_back|emplace_back)(<.*>)?\(", "contract_rules_add"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::find\(", "contract_set_find"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::c?end\(", "contract_set_end"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::(count|contains)\(", "contract_set_count"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::insert\(unsigned long", "contract_set_insert"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::erase(\[abi:cxx11\])?\(std::_Rb_tree", "contract_set_erase"),
    (r"^c10_set_", r"^std::set<unsigned long,.*>::erase\(unsigned long", "contract_set_erase_key"),
    (r"^c14_paths", r"pm::SearchFlooder::iter_edges_on_shortest_path_from_middle<", "each:contract_path"),
    (r"^c(01|17)_events", r"^std::vector<bool, .*>::size\(", "contract_flags"),
    (r"^c(01|17)_events", r"^std::vector<bool, .*>::operator\[\]\(unsigned long\)$", "contract_flag"),
    (r"^c(01|17)_events", r"^std::vector<bool, .*>::operator\[\]\(unsigned long\) const$", "contract_flag_value"),
    (r"^c(01|17)_events", r"^pm::Mwpm::create_detection_event\(", "contract_create"),
    (r"^c(01|17)_events", r"^pm::GraphFlooder::run_until_next_mwpm_notification\(", "contract_next"),
    (r"^c(01|17)_events", r"^pm::Mwpm::process_event\(", "contract_handle"),
    (r"^c(01|17)_events", r"^pm::Mwpm::reset\(", "contract_reset"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::decode_detection_events_to_edges\(", "contract_to_edges"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::MatchingGraph::reweight_for_edges\(", "contract_reweight"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::SearchGraph::reweight_for_edges\(", "contract_sreweight"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::MatchingGraph::undo_reweights\(", "contract_undo"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::SearchGraph::undo_reweights\(", "contract_sundo"),
    (r"^c17_(mask|bits|pairs)$", r"^process_timeline_until_completion\(", "contract_timeline"),
    (r"^c17_(mask|bits|pairs)$", r"^shatter_blossoms_for_all_detection_events_and_extract_obs_mask_and_weight\(", "contract_take"),
    (r"^c17_(mask|bits|pairs)$", r"^shatter_blossoms_for_all_detection_events_and_extract_match_edges\(", "contract_take_edges"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::Mwpm::extract_paths_from_match_edges\(", "contract_paths"),
    (r"^c17_(mask|bits|pairs)$", r"^pm::fill_bit_vector_from_obs_mask\(", "contract_fill"),
    (r"^c(01|17)_take", r"^pm::Mwpm::shatter_blossom_and_extract_matches\(", "contract_take_region"),
    (r"^c(01|17)_take", r"^pm::Mwpm::shatter_blossom_and_extract_match_edges\(", "contract_take_region_edges"),
    (r"^c15_", r"^malloc$", "contract_malloc"),
    (r"^c08_prune", r"^pm::Arena<pm::AltTreeNode>::del\(", "contract_release"),
]
def for_harness(h):
    return [(re.compile(c), s) for (p, c, s) in R if re.search(p, h)]
# rounds of quantifier instantiation (2 unless listed)
ROUNDS = [(r"^c08_prune", 3)]
def rounds(h):
    return next((n for p, n in ROUNDS if re.search(p, h)), 2)
