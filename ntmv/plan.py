"""What each check runs and must have reached. Importing this does not import the code under test."""


def p(rule, needs, quick=(800, 240), thorough=(300000, 780), assumptions=()):
    return {
        "rule": rule.replace("Non-trivial: ", "Non-trivial: a case with "), "needs": list(needs), "assumptions": list(assumptions),
        "quick": {"cases": quick[0], "wall": quick[1]},
        "thorough": {"cases": thorough[0], "wall": thorough[1]},
    }


GEN = ("Seeded random networks (9 topology families, 2-9 nodes, some 10-24; unit/tied/wide, symmetric and asymmetric costs; "
       "parallel links; tight or mixed capacities; RSVP on/off/percentages; 9 node naming styles, among them names of different case and words the package uses itself), built by constructor, by file or "
       "grown call by call, then random changes, failures and repairs with updates in between. Iteration orders are controlled by "
       "seeded sets and 8 different hash seeds. One evaluation is one such case, counted once however many non-trivial events it has. Every update_simulation return is observed and decided by an independent oracle. ")

RSVP_ASSUME = "LSP signaling order within an update is free: a state is accepted when some order and tie-break explains it"

PLAN = {
    "C01": p(GEN + "Non-trivial: an observed update with a demand on several paths, or unrouted; distinct by configuration.",
             ["updates_observed", "demand_igp", "multipath_demands", "demand_unrouted", "updates_with_failures"], (10000, 80), (300000, 780)),
    "C02": p(GEN + "Non-trivial: an observed update with non-zero interface loads compared; distinct by configuration.",
             ["updates_observed", "loads_nonzero", "demand_lsp", "demand_shortcut", "multipath_demands"], (10000, 80), (300000, 780)),
    "C03": p(GEN + "Non-trivial: an observed update of a model with failed elements; distinct by configuration.",
             ["updates_observed", "updates_with_failures", "lsps_unrouted", "demand_unrouted"], (9000, 80), (250000, 780)),
    "C07": p(GEN + "Non-trivial: an observed update with routed LSPs; distinct by configuration.",
             ["updates_observed", "lsps_routed", "rsvp_explained", "lsps_unrouted"], (10000, 80), (300000, 780), [RSVP_ASSUME]),
    "C08": p(GEN + "Non-trivial: an observed update with routed LSPs; distinct by configuration.",
             ["updates_observed", "lsps_routed", "rsvp_explained", "lsps_unrouted", "lsp_ties", "tie_sets_compared", "detour_networks"], (10000, 80), (300000, 780), [RSVP_ASSUME]),
    "C09": p(GEN + "Non-trivial: an observed update where LSPs compete and some resignal, or a group is only partly set up; distinct by configuration.",
             ["updates_observed", "lsps_routed", "rsvp_explained", "lsps_resignaled", "updates_with_resignaling", "tie_sets_compared"], (10000, 80), (300000, 780), [RSVP_ASSUME]),
    "C10": p(GEN + "Non-trivial: an observed update with a demand on end-to-end LSPs; distinct by configuration.",
             ["updates_observed", "demand_lsp", "demand_igp", "multipath_demands", "updates_with_colliding_pairs"], (10000, 80), (300000, 780)),
    "C11": p(GEN + "Non-trivial: an observed update with a demand that takes an LSP as an IGP shortcut; distinct by configuration.",
             ["updates_observed", "demand_shortcut", "demand_igp"], (10000, 80), (300000, 780)),
    "C12": p(GEN + "Non-trivial: an observed update with a path detail of several paths or items; distinct by configuration.",
             ["updates_observed", "details_checked", "multipath_demands", "demand_lsp", "demand_shortcut", "demand_unrouted"], (10000, 80), (300000, 780)),
    "C13": p(GEN + "Non-trivial: an observed update with routed demands whose reverse lookups were all compared; distinct by configuration.",
             ["updates_observed", "lookups_compared", "lsp_lookups", "demand_lsp", "updates_with_failures"], (7000, 80), (200000, 780)),
    "C04": p(GEN + "Non-trivial: a history of changes, failures, repairs and updates followed by an update; distinct by operation history.",
             ["histories", "fresh_builds_compared", "repeat_updates_compared", "updates_with_failures", "configs_compared", "updates_broken_off"], (8000, 80), (600000, 780)),
    "C05": p(GEN + "Non-trivial: a history of failures and repairs whose state was compared with a shadow model after each call; distinct by history.",
             ["failure_ops_compared", "restores", "restored_results_compared", "refusals_expected", "configs_compared"], (8000, 80), (600000, 780)),
    "C06": p(GEN + "Non-trivial: a history of shared-risk group operations compared with a shadow model after each call; distinct by history.",
             ["srlg_ops_compared", "states_with_failed_srlg", "srlg_states_compared", "refusals_expected"], (8000, 80), (600000, 780)),
    "C19": p(GEN + "Two or three models run interleaved, and at the end of some cases by threads that take turns at chosen lines. Non-trivial: a history with bystander snapshots; distinct by history.",
             ["bystander_snapshots", "ownership_checks", "grown_vs_built_compared", "interleaved_ops", "compared_with_model_alone", "thread_results_compared", "thread_switches"], (8000, 80), (400000, 780)),
    "C14": p(GEN + "Path queries with random ends, bandwidths (also exactly at, just above and below what is left), hop limits. Non-trivial: an all-paths query with several paths; distinct by answer.",
             ["shortest_path_queries", "multi_shortest", "no_path_queries", "all_paths_queries", "routed_lsp_queries", "queries_broken_off", "thread_answers_compared", "thread_switches"], (10000, 80), (600000, 780)),
    "C15": p(GEN + "Each model is accepted, then one defect of 13 kinds is planted at a random place and must be rejected. Non-trivial: a model accepted or a defect rejected; distinct by model and place.",
             ["well_formed_accepted", "defects_rejected", "rejected_no_counterpart", "rejected_capacity", "rejected_dup_iface", "rejected_rename_node", "rejected_reserved_sum",
              "rejected_reserved_high", "rejected_id_once", "rejected_id_shared", "rejected_id_shared_pair", "rejected_parallel", "rejected_shortcuts"], (10000, 80), (600000, 780)),
    "C16": p(GEN + "Histories of additions, renames, list imports and refused calls, compared with a shadow after each call. Non-trivial: every history; distinct by history.",
             ["additions", "additions_before_validation", "refused_calls", "lookups_done", "configs_compared"], (10000, 80), (600000, 780)),
    "C22": p(GEN + "Invalid and valid assignments to attributes of elements of simulated models. Non-trivial: every case; distinct by assignments.",
             ["refused_assignments", "accepted_assignments", "results_after_refusals_compared"], (10000, 80), (500000, 780)),
    "C17": p(GEN + "Model files in every documented layout (blank, missing and spelled-out optional columns, implied nodes, shuffled lines, BOM, CRLF, missing LSP table, repeated lines), then one defect. Non-trivial: every file; distinct by text.",
             ["loads_compared", "results_compared", "reorderings_compared", "repeats_compared", "optional_columns_absent", "optional_columns_blank", "nodes_implied", "refused_files",
              "refused_demand_source", "refused_demand_dest", "refused_lsp_source", "refused_lsp_dest", "refused_columns", "refused_circuit_id_once", "refused_circuit_id_thrice", "names_reused", "reloads_compared"],
             (10000, 80), (500000, 780)),
    "C18": p(GEN + "Each network runs in two of the four model classes. Non-trivial: every history compared; distinct by history.",
             ["models_compared", "demands_compared", "multipath_compared", "lsps_compared", "loads_nonzero", "queries_compared", "pair_perf_flex"], (8000, 80), (500000, 780)),
    "C20": p(GEN + "Each network is run again renamed, reordered, grown, listed from the other end, with scaled costs or traffic, and next to a disconnected part. Non-trivial: a network with demands; distinct by network.",
             ["relation_rename", "relation_reorder", "relation_grow", "relation_costs", "relation_traffic", "relation_part", "relation_swap_ends", "demands_compared",
              "multipath_compared", "lsps_compared", "loads_nonzero"], (8000, 80), (500000, 780)),
    "C21": p(GEN + "The map of each simulated network, and for a third of them its web callbacks in process. Non-trivial: every map; distinct by network and results.",
             ["maps_checked", "edges_checked", "edges_dimgrey", "edges_royalblue", "edges_green", "edges_yellow", "edges_orangered", "edges_darkred", "edges_darkviolet", "lists_compared",
              "highlights_compared", "lsp_highlights_compared", "web_sessions", "menus_compared", "demand_selections", "unrouted_demand_selections", "lsp_selections", "interface_selections", "edge_clicks"],
             (5000, 80), (150000, 780)),
    "C23": p(GEN + "Everything printed is captured and compared. Non-trivial: every captured state; distinct by configuration and results.",
             ["reports", "reports_with_failures", "rows_compared", "paths_printed", "unrouted_printed", "routed_printed", "forms_compared", "srlgs_printed"],
             (6000, 80), (300000, 780)),
}
