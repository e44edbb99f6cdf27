#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (one place to edit; run it to regenerate the file)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

A = "src/analysis/"
prop("C01", "Minimal quorums are reported exactly",
 "For every FBAS, the reported minimal quorums are precisely the inclusion-minimal non-empty node sets in which every member has a quorum slice: none missing, none extra, none twice, smaller sets first, and named by the node IDs of the FBAS that was handed in. This holds for nested quorum sets, validators listed more than once, unsatisfiable thresholds, symmetric and asymmetric configurations, and FBASs made of several disconnected clusters. The library function and the analysis front end agree.",
 ["inputs", "configurations"], "every FBAS (nodes x quorum set trees x thresholds x ID layout)",
 "Tests check about a dozen hand-made FBASs and two Stellar snapshots; the symmetric shortcut, the rank-ordered search and the ID shrinking each take data-dependent paths no sample pins down.",
 [A+"quorums.rs", A+"sets.rs", A+"symmetric_clusters.rs", A+"front_end.rs", "src/core_types/quorum_set.rs", "src/core_types/shrinking.rs"],
 [("branch-and-bound search ordered by node rank", A+"quorums.rs:minimal_quorums_finder_step"),
  ("combinatorial shortcut for symmetric clusters", A+"quorums.rs:QuorumSet::to_minimal_quorums"),
  ("pre-filtering to quorum-containing components", A+"sets.rs:find_sets")],
 ["find_minimal_quorums", "Analysis::minimal_quorums"])
prop("C02", "Minimal blocking sets are reported exactly",
 "For every FBAS that has a quorum, the reported minimal blocking sets are precisely the inclusion-minimal node sets that intersect every quorum: none missing, none extra, none twice, smaller sets first, named by the node IDs of the FBAS handed in. This includes nested quorum sets, repeated validators, partially unsatisfiable quorum sets, and FBASs with several disjoint clusters, where every cluster has to be blocked. The library function and the analysis front end agree.",
 ["inputs", "configurations"], "every FBAS with at least one quorum",
 "Tests check a few hand-made FBASs; duality with the quorums is never checked on all small systems, and the symmetric shortcut has its own threshold arithmetic.",
 [A+"blocking_sets.rs", A+"sets.rs", A+"symmetric_clusters.rs", A+"front_end.rs"],
 [("branch-and-bound with remaining / max_remaining pruning", A+"blocking_sets.rs:minimal_blocking_sets_finder_step"),
  ("shortcut for symmetric clusters", A+"blocking_sets.rs:QuorumSet::to_minimal_blocking_sets"),
  ("cross product over clusters", A+"blocking_sets.rs:minimal_blocking_sets_finder")],
 ["find_minimal_blocking_sets", "Analysis::minimal_blocking_sets"])
prop("C03", "Minimal splitting sets are reported exactly",
 "For every FBAS with quorum intersection, the reported minimal splitting sets are precisely the inclusion-minimal intersections of two different minimal quorums, none missing, extra or repeated, smaller sets first, named by the node IDs of the FBAS handed in. If there is only one minimal quorum there are none, and for an FBAS without quorum intersection the analysis front end reports exactly the empty set.",
 ["inputs", "configurations"], "every FBAS",
 "The search relies on heuristics over slice intersections and on a shortcut for symmetric clusters; tests exercise them on a handful of configurations.",
 [A+"splitting_sets.rs", A+"front_end.rs", A+"sets.rs"],
 [("search over common parts of minimal quorums", A+"splitting_sets.rs:splitting_sets_finder_step"),
  ("shortcut for symmetric clusters", A+"splitting_sets.rs:QuorumSet::to_minimal_splitting_sets"),
  ("pruning heuristic", A+"splitting_sets.rs:has_potential")],
 ["find_minimal_splitting_sets", "Analysis::minimal_splitting_sets"])
prop("C04", "The quorum intersection verdict is correct",
 "For every FBAS, the analysis says there is quorum intersection if and only if the FBAS has at least one quorum and no two of its quorums are disjoint. The alternative check, which does not enumerate all minimal quorums, always reaches the same verdict, before and after any other query.",
 ["inputs", "histories"], "every FBAS; either check first",
 "This is the headline safety verdict; tests compare the two checks on a few inputs only, and none without any quorum.",
 [A+"front_end.rs", A+"quorums.rs", A+"sets.rs"],
 [("pairwise intersection of minimal quorums", A+"sets.rs:all_intersect"),
  ("complement search with half-size bound", A+"quorums.rs:nonintersecting_quorums_finder_step")],
 ["Analysis::has_quorum_intersection", "Analysis::has_quorum_intersection_via_alternative_check"])
prop("C05", "Reported non-intersecting quorums are a genuine witness",
 "Whenever the search for non-intersecting quorums reports a result, it consists of at least two non-empty quorums of the FBAS handed in that are pairwise disjoint, given in that FBAS's node IDs. It reports a result exactly if two disjoint quorums exist.",
 ["inputs", "configurations"], "every FBAS and ID layout",
 "Tests check one witness; the search stops early, prunes by size, and its result passes through two ID spaces.",
 [A+"quorums.rs", A+"front_end.rs", "src/core_types/shrinking.rs"],
 [("early-terminating search", A+"quorums.rs:nonintersecting_quorums_finder"),
  ("unshrinking of the witness", A+"front_end.rs:has_quorum_intersection_via_alternative_check")],
 ["find_nonintersecting_quorums", "Analysis::has_quorum_intersection_via_alternative_check"])
prop("C06", "The top tier is the union of minimal quorums and of blocking sets",
 "For every FBAS, the reported top tier is exactly the set of nodes that occur in some minimal quorum, which for an FBAS with a quorum equals the set of nodes that occur in some minimal blocking set. The answer is the same whichever analyses were run before it.",
 ["inputs", "histories"], "every FBAS x every order of preceding queries",
 "The answer is derived from whichever cached result happens to exist; tests check one order on one input.",
 [A+"front_end.rs", A+"sets.rs"],
 [("top tier from whichever cache is filled", A+"front_end.rs:top_tier_shrunken")],
 ["Analysis::top_tier"])
prop("C07", "Symmetric clusters and the symmetric top tier are found exactly",
 "The reported symmetric clusters are precisely the quorum sets Q, each once, such that every node listed in Q (at any depth) uses Q and all of them lie in one strongly connected component, of the trust graph among the satisfiable nodes, that contains a quorum. A symmetric top tier is reported if and only if there is exactly one such cluster and no quorum exists outside of it, and it is then that cluster's quorum set.",
 ["inputs", "configurations"], "every FBAS",
 "All shortcuts depend on symmetric clusters being recognised correctly; tests have a few positive and negative examples.",
 [A+"symmetric_clusters.rs", A+"front_end.rs"],
 [("occurrence counting per quorum set", A+"symmetric_clusters.rs:find_symmetric_clusters_in_node_set"),
  ("top-tier test on the complement", A+"symmetric_clusters.rs:find_symmetric_top_tier")],
 ["find_symmetric_clusters", "find_symmetric_top_tier", "Analysis::symmetric_clusters", "Analysis::symmetric_top_tier"])
prop("C08", "Analysis answers do not depend on the history of queries",
 "For every FBAS and every sequence of queries on one analysis object, each query answers exactly as it would on a fresh analysis object, also when it is repeated (symmetric clusters in any order; where a witness is asked for, an equally valid one). Results obtained earlier remain valid and keep denoting the same nodes after later queries.",
 ["histories", "inputs"], "every sequence of queries (up to a depth) on every FBAS of the families",
 "Cached results are re-encoded when the internal ID space is shrunk in mid-analysis; tests run one or two fixed sequences.",
 [A+"front_end.rs", A+"results.rs", "src/core_types/shrinking.rs"],
 [("caches in RefCells, ID space re-shrunk after the first top-tier-defining result", A+"front_end.rs:shrink_id_space_to_top_tier"),
  ("conversion between shrunken ID spaces", "src/core_types/shrinking.rs:reshrink_sets")],
 ["all Analysis methods"],
 [("four result caches and the current ID mapping", "filled or not, before or after re-shrinking", A+"front_end.rs:Analysis")])
prop("C09", "Results follow the nodes when they are renumbered, renamed or padded",
 "Reordering the nodes of an FBAS, renaming their public keys, or adding nodes that are not part of any quorum changes no analysis result other than by the same renumbering. In particular results do not depend on how large the node IDs are.",
 ["inputs", "configurations"], "every FBAS x every permutation x padding layouts (IDs beyond 64 and 128)",
 "No test permutes or pads an FBAS and compares; bit-set block boundaries and ID shrinking only matter for IDs beyond 32/64.",
 [A+"front_end.rs", "src/core_types/shrinking.rs", A+"preprocessing.rs", A+"results.rs"],
 [("ID space shrinking and unshrinking", "src/core_types/shrinking.rs:ShrinkManager"),
  ("node ordering by rank must not influence results", A+"preprocessing.rs:sort_by_rank")],
 ["all Analysis methods"])
prop("C10", "Quorum slices and quorums follow the recursive threshold rule",
 "A node set satisfies a quorum set exactly if its threshold is positive and at least threshold many of the listed validators (repeated entries counting each time) and nested quorum sets are in, respectively satisfied by, the node set. The enumerated quorum slices contain only satisfying sets, and every satisfying set contains one of them; a node set is a quorum exactly if it is non-empty and satisfies the quorum set of each member.",
 ["inputs"], "every quorum set tree x every node set; every FBAS x every node set",
 "Every analysis rests on this predicate; tests check a few sets.",
 ["src/core_types/quorum_set.rs", "src/core_types/fbas.rs"],
 [("threshold evaluation with early cut-off", "src/core_types/quorum_set.rs:is_quorum_slice"),
  ("slice enumeration via combinations and products", "src/core_types/quorum_set.rs:to_quorum_slices"),
  ("quorum predicate", "src/core_types/fbas.rs:is_quorum")],
 ["QuorumSet::is_quorum_slice", "QuorumSet::to_quorum_slices", "QuorumSet::contained_nodes", "QuorumSet::contains_duplicates", "Fbas::is_quorum"])
prop("C11", "Satisfiable nodes, components and relevant nodes are exact",
 "The satisfiable nodes are exactly the union of all quorums (within the given node set), and the unsatisfiable nodes are all others. The strongly connected components of a node set partition it exactly by mutual reachability in the trust graph among its nodes, and the relevant nodes are exactly those in a component of satisfiable nodes that contains a quorum.",
 ["inputs"], "every FBAS, every node subset",
 "Every analysis is restricted to these sets first, so an error here silently drops quorums; tests check a few graphs.",
 [A+"preprocessing.rs", A+"quorums.rs"],
 [("fixpoint removal of unsatisfied nodes", A+"preprocessing.rs:find_satisfiable_nodes"),
  ("SCC partition", A+"preprocessing.rs:partition_into_strongly_connected_components"),
  ("relevant nodes", A+"preprocessing.rs:Fbas::relevant_nodes")],
 ["Fbas::satisfiable_nodes", "Fbas::unsatisfiable_nodes", "Fbas::strongly_connected_components", "Fbas::relevant_nodes", "Analysis::satisfiable_nodes", "Analysis::unsatisfiable_nodes", "preprocessing::*"])
prop("C12", "The standard form is canonical and preserves the analysis",
 "Two FBASs that differ only in node order and in nodes irrelevant to the analysis have equal standard forms with identical JSON. The standard form contains exactly the relevant nodes, sorted by public key and with public keys resolving to their node, and has the same minimal quorums, blocking sets, splitting sets and quorum intersection verdict as the original when nodes are identified by public key.",
 ["inputs", "configurations"], "every FBAS x every node permutation x irrelevant-node padding",
 "The standard form keys the reuse of earlier results; a non-canonical form silently recomputes, a lossy one silently reuses wrong results. Tests check two inputs.",
 [A+"preprocessing.rs", "src/core_types/shrinking.rs", "src/io/core_types.rs"],
 [("reduction to relevant nodes, sort by public key, rebuild", A+"preprocessing.rs:Fbas::to_standard_form")],
 ["Fbas::to_standard_form"])
prop("C13", "FBAS JSON is read as written and survives a round trip",
 "Reading an FBAS from JSON yields one node per entry in file order, resolves public keys to those nodes, defaults missing quorum sets and nested sets, ignores unknown fields and validators not in the file, and keeps thresholds up to 2^64-1. Writing an FBAS that was read from JSON without repeated public keys, plain or pretty, and reading it back yields an equal FBAS with the same name lookup.",
 ["inputs"], "every FBAS document of the grammar (field presence x order x unknown names x thresholds)",
 "Tests read a few documents; presence, absence and ordering of optional parts combine.",
 ["src/io/core_types.rs", "src/core_types/fbas.rs"],
 [("raw-to-internal conversion", "src/io/core_types.rs:from_raw"), ("internal-to-raw conversion", "src/io/core_types.rs:to_raw")],
 ["Fbas::from_json_str", "Fbas::from_json_file", "Fbas::from_json_stdin (via the CLI)", "Fbas::to_json_string", "Fbas::to_json_string_pretty", "Serialize/Deserialize"])
prop("C14", "Reducing an FBAS to a node subset keeps exactly the induced system",
 "Reducing an FBAS to any subset of its nodes yields exactly those nodes in the same order, with their public keys, thresholds and the trust edges among them (a nested set left without members is the same as none), and name lookup on the reduced FBAS resolves every kept key to its node and no other. Translating node sets into the reduced ID space and back is the identity, and groupings reduced alongside keep the same names and remaining members.",
 ["inputs"], "every FBAS x every node subset",
 "All analyses run on reduced copies; tests reduce two FBASs and never look up names afterwards.",
 ["src/core_types/shrinking.rs", "src/core_types/fbas.rs"],
 [("ID mapping tables", "src/core_types/shrinking.rs:ShrinkManager"), ("copying of nodes", "src/core_types/shrinking.rs:Fbas::shrunken")],
 ["Fbas::shrunken", "Groupings::shrunken"])
prop("C15", "Groupings are read exactly as the data says",
 "Organizations keep their order, names and those listed members that exist in the FBAS. ISP and country groupings contain exactly one group per distinct normalised name (commas removed, then one trailing full stop removed), sorted by name, with exactly the nodes carrying that name in file order; nodes without the data are in no group. Any string is accepted as a name, lookup by name and by member agree with the listed members, and writing groupings as JSON and reading them back yields the same groupings.",
 ["inputs"], "every document of the grammar (names incl. empty, punctuation-only and non-ASCII x memberships)",
 "Tests use well-behaved names; normalisation has edge cases exactly where real data is messy.",
 ["src/io/groupings.rs", "src/core_types/groupings.rs"],
 [("name normalisation", "src/io/groupings.rs:remove_special_chars_from_grouping_name"),
  ("grouping by name", "src/io/groupings.rs:isps_from_raw_nodes / countries_from_raw_nodes")],
 ["Groupings::*_from_json_str", "Groupings::*_from_json_file", "get_by_member", "get_by_name", "number_of_groupings", "Serialize"])
prop("C16", "Merging by group maps every node to its group and stays minimal",
 "For groups that do not overlap, merging a node set replaces every node by one representative per group, nodes outside any group staying as they are; merging a family of node sets and minimising yields exactly the inclusion-minimal images, without duplicates, also for results of an analysis. Merging a quorum set in which every threshold is between 1 and its number of entries yields one that a set of whole groups satisfies exactly if it satisfied the original one, and it mentions exactly the groups the original mentioned.",
 ["inputs"], "every non-overlapping grouping x every node set family / quorum set tree",
 "Tests check a few merges; nested sets collapsing into single groups next to other nested sets are not among them.",
 [A+"merge_by_group.rs", A+"results.rs", "src/core_types/groupings.rs"],
 [("representative table", "src/core_types/groupings.rs:Groupings::new"), ("recursive collapse", A+"merge_by_group.rs:merge_quorum_set")],
 ["Groupings::merge_*", "NodeIdSetResult::merged_by_group", "NodeIdSetVecResult::merged_by_group", "NodeIdSetVecResult::minimal_sets"])
prop("C17", "Post-processing and statistics of results are exact, in any order",
 "For every analysis result and every chain of post-processing steps (removing nodes by ID or by name, merging by group, reducing to minimal sets), the outcome is what the same steps give on plain sets of node IDs. Counts, involved nodes, emptiness, minimum, maximum, mean and histogram always describe exactly the sets that the result would output.",
 ["inputs", "histories"], "every result x every chain of post-processing steps up to a depth",
 "Results are kept in a compressed ID space that each step has to undo at the right time; tests chain one or two steps.",
 [A+"results.rs", A+"sets.rs"],
 [("lazy unshrinking", A+"results.rs:NodeIdSetVecResult::unshrink"), ("statistics", A+"results.rs:describe")],
 ["NodeIdSetResult::*", "NodeIdSetVecResult::*"])
prop("C18", "Every output form denotes the same result",
 "For every result, the node ID form, the pretty form and the serialised form list the same sets in the same order, in valid JSON, with each node shown as its public key, or its group's name if a grouping is given and it belongs to a group. Quorum sets are shown with the same structure and thresholds (merged by group first if a grouping is given), and the summary form shows the result's actual statistics.",
 ["inputs", "configurations"], "every result x every grouping x every output form",
 "Tests render a few results; names needing JSON escapes and results whose IDs were compressed are not covered.",
 ["src/io/results.rs"],
 [("rendering", "src/io/results.rs:AnalysisResult"), ("name lookup", "src/io/results.rs:to_public_keys / to_grouping_names")],
 ["into_id_string", "into_pretty_string", "into_describe_string", "into_pretty_vec", "into_pretty_vec_vec", "into_pretty_quorum_set", "Serialize"])
prop("C19", "Set family helpers are exact",
 "For every family of node sets, minimisation keeps exactly the inclusion-minimal sets, once each and smaller ones first; the minimality test accepts exactly families in which no set contains another member; the pairwise intersection test accepts exactly families in which every two members intersect; the involved nodes are exactly the union.",
 ["inputs"], "every family of node sets over a small universe, and over sparse universes",
 "All results pass through these helpers, which use a size-based shortcut and length buckets; tests check a few families.",
 [A+"sets.rs"],
 [("bucketed minimisation", A+"sets.rs:remove_non_minimal_node_sets"), ("size-based quick check", A+"sets.rs:all_intersect")],
 ["sets::*"])
prop("C20", "Node ranking follows the trust graph",
 "The rank scores are those of the documented iteration: equal starting scores, each ranked node passing its score in equal parts to the distinct nodes it trusts, links from or to unranked nodes giving nothing. Scores do not depend on the order in which nodes are given, and sorting by rank returns the same nodes with non-increasing scores.",
 ["inputs"], "every FBAS x every subset and order of nodes to rank",
 "Tests check three tiny graphs; order independence and conservation under subsets are not tested.",
 [A+"preprocessing.rs"],
 [("damping-free page rank, fixed number of runs", A+"preprocessing.rs:rank_nodes"), ("sorting", A+"preprocessing.rs:sort_by_rank")],
 ["Fbas::rank_nodes", "preprocessing::rank_nodes", "preprocessing::sort_by_rank"])
S = "src/simulation/"
prop("C21", "Simulation visits every node once per round and stops exactly when stable",
 "For every configuration policy and every random visit order, a reevaluation announces its start, then performs rounds in each of which every node is configured exactly once and reported with the effect the policy returned, and ends with the first round without any change or with the maximum number of rounds, returning and announcing the number of rounds made. Growth adds exactly the requested nodes with consecutive IDs, configures and announces each, and lets all nodes reevaluate after each addition for at most as many rounds as there are nodes.",
 ["schedules", "histories"], "every visit order x every answer sequence of the policy x FBAS sizes and bounds",
 "The visit order is drawn at random and never controlled in tests, so they sample one order per run.",
 [S+"mod.rs", S+"monitors.rs"],
 [("round loop", S+"mod.rs:simulate_global_reevaluation"), ("growth loop", S+"mod.rs:simulate_growth"), ("change accumulation", S+"mod.rs:ChangeEffect::update")],
 ["Simulator", "SimulationMonitor events", "monitors::DebugMonitor"],
 [("event history", "sequence of events seen by the monitor", S+"monitors.rs")])
prop("C22", "Deterministic policies produce their documented quorum sets in every order",
 "Whatever the visit order, after reevaluation every node has the quorum set its policy documents: all nodes with a 67% threshold (ideal) or with threshold n (super safe), itself and all graph neighbours, itself and its higher-tier or else same-tier neighbours, or all nodes of above-average rank, with the threshold belonging to the number of validators; nodes outside the graph stay unconfigured. A policy reports a change exactly if it changed the quorum set, a further reevaluation changes nothing, and the symmetry-enforcing policy gives each node the union prescribed by the quorum sets present at its visit.",
 ["schedules", "inputs", "configurations"], "every visit order x every small graph x every policy and relative threshold",
 "Tests run a few graphs with one random order each.",
 [S+"qsc/ideal.rs", S+"qsc/super_safe.rs", S+"qsc/graph_based/all_neighbors.rs", S+"qsc/graph_based/relative_tierness_based.rs", S+"qsc/graph_based/global_ranking_based.rs"],
 [("configure per policy", S+"qsc/*: QuorumSetConfigurator::configure")],
 ["qsc::*", "Simulator::finalize"])
prop("C23", "Random policies stay within their specification for every random outcome",
 "For every outcome of the random choices, a randomly configured node keeps its existing validators (itself if it had none), grows them to the smaller of desired size and what is available (network size, nodes of positive weight) with distinct existing nodes, never lists a node twice, and gets the desired threshold or the 67% threshold of its size; a node that already has enough validators, or cannot get more, is left alone and reported unchanged. Every eligible node can be chosen, with probability proportional to its weight, and nodes of weight zero are never chosen.",
 ["schedules", "inputs"], "every random outcome x sizes x weights x thresholds",
 "Tests look at one random outcome per run.",
 [S+"qsc/random.rs"],
 [("weighted choice without replacement", S+"qsc/random.rs:RandomQsc::configure")],
 ["qsc::RandomQsc"])
prop("C24", "Generated graphs satisfy their model for every random outcome",
 "For every outcome of the random choices, scale-free generation yields an undirected simple graph in which a fully meshed core (of one node or more) is extended by nodes attaching to exactly m distinct earlier nodes, chosen with probability proportional to degree; small-world generation yields an undirected simple graph with exactly n*k/2 edges that is the ring lattice, except that every link has been rewired with the given probability, to a node chosen uniformly from those not linked to then. Full-mesh and tiered graphs (with tiers of any size, also empty ones) have exactly the documented edges, and shuffling yields a relabelled copy of the same graph, every relabelling being possible.",
 ["schedules", "inputs"], "every random outcome x parameters",
 "Tests look at one random outcome per run and a few parameters.",
 [S+"graph.rs"],
 [("Barabasi-Albert", S+"graph.rs:new_random_scale_free"), ("Watts-Strogatz", S+"graph.rs:new_random_small_world"), ("relabelling", S+"graph.rs:shuffled")],
 ["simulation::Graph::new_*", "Graph::shuffled"])
prop("C25", "AS-relationship graphs are read as documented and survive a round trip",
 "Reading AS-relationship data yields exactly the listed links: a peering line links both nodes mutually, a provider-customer line a|b|-1 links b to a only, comments and blank lines are ignored, duplicate lines add nothing, and plain and bzip2 files read like the text. Writing an undirected graph whose last node has a link, with or without a header comment, to a string or file and reading it back yields the same links.",
 ["inputs"], "every small edge list x line orders x comments; every small undirected graph",
 "Tests read one sample file and round-trip two graphs.",
 ["src/io/graph.rs"],
 [("line parser", "src/io/graph.rs:get_edge_from_as_rel_line"), ("writer", "src/io/graph.rs:to_as_rel_string")],
 ["Graph::from_as_rel_string", "Graph::from_as_rel_file", "Graph::to_as_rel_string", "Graph::to_as_rel_file"])
prop("C26", "Graph metrics describe the graph",
 "In-degrees, out-degrees, the set of nodes with any link, the number of nodes and the undirectedness test agree with the links of the graph for every graph. Rank scores are those of damping-free page rank up to the documented stopping tolerance and do not depend on how nodes are numbered.",
 ["inputs"], "every small directed graph",
 "Tests check a few graphs.",
 [S+"graph.rs"],
 [("metrics", S+"graph.rs:get_in_degrees / get_out_degrees / get_connected_nodes / is_undirected"), ("rank scores", S+"graph.rs:get_rank_scores")],
 ["simulation::Graph metrics"])
prop("C27", "Thresholds give the promised fault tolerance",
 "The 67% threshold of n is the smallest t with 3t >= 2n+1 (so n-t < n/3) for every n >= 1, and the relative threshold is max(1, ceil(n*x)), where the product may be the exact or the floating-point one. An ideal configuration of n nodes therefore has quorum intersection, tolerates exactly f = floor((n-1)/3) crashed nodes, and keeps quorum intersection despite any f faulty nodes; a super-safe configuration has exactly one quorum, all nodes.",
 ["inputs", "fault_sequences"], "every n up to a bound (thresholds: millions; analysis: every set of faulty nodes)",
 "Floating-point arithmetic is used; tests check a dozen values.",
 [S+"qsc/mod.rs", S+"qsc/ideal.rs", S+"qsc/super_safe.rs"],
 [("floating-point formula", S+"qsc/mod.rs:calculate_67p_threshold")],
 ["simulation::qsc::calculate_67p_threshold", "calculate_x_threshold", "IdealQsc", "SuperSafeQsc"])
prop("C28", "The analyzer tool reports what the library computes, for every option mix",
 "For every combination of options, the fbas_analyzer command exits successfully and prints exactly the requested results, each correct for the given FBAS: node counts, symmetric clusters, quorum intersection (regular or alternative, with non-intersecting quorums), minimal quorums, blocking sets, splitting sets and top tier. Results are merged by country, ISP or organization in that precedence, named or summarised as requested, and the same for file and standard input unless merging needs the file; with results-only, nothing but results is printed.",
 ["configurations", "inputs"], "every combination of flags x input documents",
 "Three functional tests run three option combinations.",
 ["src/bin/fbas_analyzer.rs"],
 [("todo extraction", "src/bin/fbas_analyzer.rs:extract_main_todos / extract_groupings_todos"), ("output switch", "src/bin/fbas_analyzer.rs:Output")],
 ["fbas_analyzer stdout, exit status"])
prop("C29", "Bulk analysis rows are correct, complete and in order under every schedule",
 "For every non-empty set of input files with distinct labels, number of jobs and order in which analyses finish, the bulk analyzer writes a header and exactly one row per nodes file, ordered by label, each holding the correct values for that file (and its organizations file, ISPs and countries), including the fingerprint of its standard form. Labels and organizations files are matched by the documented naming scheme.",
 ["schedules", "inputs", "configurations"], "every completion order of up to 4 concurrent analyses x jobs x file sets x naming patterns",
 "There is no test of the tool at all; thread scheduling is never controlled.",
 ["src/bin/bulk_fbas_analyzer.rs"],
 [("ordered parallel map", "src/bin/bulk_fbas_analyzer.rs:bulk_do"), ("label extraction", "src/bin/bulk_fbas_analyzer.rs:extract_label"), ("sorted tasks", "src/bin/bulk_fbas_analyzer.rs:make_sorted_tasklist")],
 ["bulk_fbas_analyzer CSV output"])
prop("C30", "Bulk updates reuse every existing row and never overwrite without consent",
 "For inputs with distinct labels: without the update option an existing output file is refused and left untouched. With it, every existing row is kept with all its values, rows for inputs not yet covered are added, rows stay ordered by label, and existing results are not recomputed; repeating an update changes nothing.",
 ["histories", "configurations"], "every sequence of runs (with or without update) over every subset of inputs, up to a depth",
 "There is no test of the tool at all.",
 ["src/bin/bulk_fbas_analyzer.rs"],
 [("task list from existing outputs", "src/bin/bulk_fbas_analyzer.rs:make_sorted_tasklist"), ("overwrite guard", "src/bin/bulk_fbas_analyzer.rs:write_csv")],
 ["bulk_fbas_analyzer CSV output, exit status"])
prop("C31", "An interrupted bulk run leaves finished rows and can be completed",
 "If a bulk run that writes to a new file is killed at any moment, or a write fails at any point, the output file holds a prefix of the complete output that contains every row whose analysis and predecessors' output had finished, cut only at the end of a row unless the write itself was torn. Re-running with the update option on such a row-aligned file then yields the complete output, and a failed write is reported by a failing exit status.",
 ["crash_points", "fault_sequences"], "every crash point between and within output writes, and every failing write",
 "There is no test of the tool at all; crash points are never exercised.",
 ["src/bin/bulk_fbas_analyzer.rs"],
 [("flush after each row", "src/bin/bulk_fbas_analyzer.rs:write_csv_via_writer")],
 ["bulk_fbas_analyzer CSV output after kill / failed write"])
prop("C32", "The simulator and graph tools print what their options ask for",
 "For every policy, initial size and growth, the simulator tool prints a valid FBAS JSON with exactly the resulting nodes, configured as the policy prescribes, reading the graph from a plain file, bzip2 file or standard input alike and using the graph's size if no size is given. The graph tool prints or writes a graph satisfying its model, which the simulator reads back.",
 ["configurations", "inputs"], "every combination of policy, graph source, sizes and thresholds",
 "There is no test of either tool.",
 ["src/bin/qsc_simulator.rs", "src/bin/graph_generator.rs"],
 [("policy construction", "src/bin/qsc_simulator.rs:parse_qsc_config"), ("graph construction", "src/bin/graph_generator.rs:apply_graph_gen_alg")],
 ["qsc_simulator stdout", "graph_generator stdout / file"])
prop("C33", "The performance experiment measures the analyses it claims, resumably",
 "For every maximum size, number of runs, topology and number of jobs, the experiment writes one row per size (multiples of three if Stellar-like) and run, ordered by size, with the correct number and mean size of minimal quorums, blocking sets and splitting sets of the intended FBAS. Existing rows are kept on update, only missing ones are added, and an existing file is refused otherwise. A finished row is written out before the run goes on, so a run that is killed at any moment, or in which a write fails, leaves the beginning of the complete output with what it had finished, cut only at the end of a row unless the write itself was torn, and can be continued by an update; a failed write is reported by a failing exit status.",
 ["configurations", "histories"], "every parameter combination up to a bound x update histories",
 "There is no test of the tool.",
 ["src/bin/bulk_performance_experiment.rs"],
 [("input generation", "src/bin/bulk_performance_experiment.rs:generate_inputs"), ("update", "src/bin/bulk_performance_experiment.rs:make_sorted_tasklist")],
 ["bulk_performance_experiment CSV output"])
prop("C34", "Every well-formed input is analysed without crashing or hanging",
 "Every FBAS that can be read from JSON, whatever its thresholds (zero, larger than the number of entries, up to 2^64-1), nesting, repeated or unknown validators, empty or missing quorum sets and number of nodes (including none), can be put through every analysis, post-processing step and output form without a panic and in bounded time.",
 ["inputs", "histories"], "every document of the grammar x every query",
 "Tests use well-behaved inputs; crawled data contains placeholder thresholds such as 2^53-1.",
 [A+"quorums.rs", A+"blocking_sets.rs", A+"splitting_sets.rs", A+"front_end.rs", "src/core_types/quorum_set.rs", "src/io/core_types.rs"],
 [("total functions over arbitrary quorum sets", "src/core_types/quorum_set.rs"), ("absence of failing assertions", A+"quorums.rs")],
 ["all public analysis functions"])
prop("C35", "Answers about faulty nodes are right for every set of faulty nodes",
 "For every set F of nodes that are assumed to be faulty, removing F from an analysis result (without_nodes by ID, without_nodes_pretty by name, in one step or one after the other) and minimising yields exactly what the definitions give: from the minimal blocking sets the minimal sets of further nodes whose failure, together with that of F, leaves no quorum (the same as analysing the FBAS in which F has crashed); from the minimal splitting sets the minimal sets of further nodes that together with F contain the intersection of two minimal quorums; from the minimal quorums the minimal sets of further nodes that with F contain a quorum; from the top tier its nodes outside of F.",
 ["inputs", "fault_sequences"], "every FBAS of the universes x every set of faulty nodes",
 "Tests remove one or two nodes from hand-made results; a forgotten minimisation or an ID mix-up needs the right combination of sets, numbering and faulty nodes.",
 [A+"results.rs", "src/core_types/set_helpers.rs", A+"blocking_sets.rs", A+"splitting_sets.rs"],
 [("faulty nodes removed from results", A+"results.rs:without_nodes"), ("minimisation", A+"results.rs:minimal_sets")],
 ["NodeIdSetVecResult::without_nodes", "NodeIdSetVecResult::without_nodes_pretty", "NodeIdSetVecResult::minimal_sets", "NodeIdSetResult::without_nodes"])
prop("C36", "Torn or malformed input is refused and never half-used",
 "An FBAS document that is cut off anywhere, is not a list of nodes, or has any single value of a wrong kind or a required field missing makes every tool that reads it exit with a failure without printing results; the same for organizations, malformed lines of AS relationship graphs, and compressed graphs that are cut off or damaged. A bulk analysis with a broken input fails and writes only right rows of other inputs. An existing result file that is cut off is, on update, either refused and left as it is, or completed with all of its whole rows kept.",
 ["inputs", "crash_points"], "every cut, every single wrong value, every changed byte of the listed documents x tools x sources",
 "Tests read four broken documents; a truncated download or crawl is cut at an arbitrary byte, and half a network yields plausible but wrong results.",
 ["src/io/core_types.rs", "src/io/groupings.rs", "src/io/graph.rs", "src/bin/fbas_analyzer.rs", "src/bin/bulk_fbas_analyzer.rs", "src/bin/bulk_performance_experiment.rs", "src/bin/qsc_simulator.rs"],
 [("documents are parsed completely or not at all", "src/io/core_types.rs:from_json_str"), ("graphs are read completely or not at all", "src/io/graph.rs:from_as_rel_file"), ("existing results", "src/bin/bulk_fbas_analyzer.rs")],
 ["fbas_analyzer", "bulk_fbas_analyzer", "bulk_performance_experiment", "qsc_simulator", "Graph::from_as_rel_file"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
