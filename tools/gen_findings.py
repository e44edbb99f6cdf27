#!/usr/bin/env python3
"""Source of /verif/known_findings.json (run by hand; no check writes that file)."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
F = [
 ("5458647", "C01 C02", "Symmetric clusters whose quorum set lists a validator more than once (e.g. threshold 2 of [0,0,1]): find_minimal_quorums / find_minimal_blocking_sets reported non-minimal, wrong or duplicate sets, because the shortcut counted entries instead of nodes."),
 ("0a1bf90", "C04 C05 C06 C34", "FBAS without any quorum: the alternative quorum intersection check panicked / gave another verdict than the regular one, and top tier queries after it failed."),
 ("ebb17f1", "C17", "NodeIdSetVecResult::involved_nodes returned IDs of the internal shrunken ID space instead of IDs of the analysed FBAS."),
 ("48ca32e", "C14", "Fbas::shrunken kept the public key table of the original FBAS: looking up a key of the reduced FBAS gave a wrong or missing node."),
 ("1af2c87", "C15 C34", "ISP / country names that are empty, or end in a multi-byte character, made Groupings::isps_from_json_str / countries_from_json_str panic."),
 ("b5e2d0b", "C16", "merge_quorum_set_by_group lost nested quorum sets next to nested sets that collapse into one group, changing which groups satisfy the result."),
 ("0d21561", "C10 C34", "QuorumSet::to_quorum_slices panicked for a threshold above the number of entries (and yielded the empty slice for threshold 0)."),
 ("9cf1362", "C02", "Minimal blocking sets of a symmetric cluster with unsatisfiable nested quorum sets were wrong (unsatisfiable entries counted as available)."),
 ("f0a8ecb", "C03", "Minimal splitting sets of symmetric clusters with nested quorum sets were incomplete / not minimal."),
 ("0c9a720", "C11 C12", "Strongly connected components of a node set followed trust links through nodes outside of the set."),
 ("a7c52ae", "C23", "RandomQsc with desired quorum set size 1 left an unconfigured node without a threshold."),
 ("28ecbec", "C23", "RandomQsc reported a change forever once all nodes were used but fewer exist than desired."),
 ("afd4bd0", "C23 C32", "RandomQsc panicked when fewer nodes than desired have a positive weight."),
 ("ecc76ad", "C22", "Global ranking policy was not stable (reported change in every round) if no node ranks above average."),
 ("b49e34a", "C24", "Graph::new_random_scale_free panicked with a core of a single node (m0 = 1)."),
 ("21b20f8", "C31", "A write of CSV output that failed half-way was repeated in full when the CSV writer was dropped: if that succeeded, the output file held the beginning of the row (or header) twice."),
 ("8e8de11", "C24", "Graph::new_tiered_full_mesh: tiers below an empty tier shared the node IDs of an earlier tier."),
 ("b4ed31d", "C25 C36", "A truncated .bz2 graph was read as if it was complete (up to the cut, or as an empty graph), and a .bz2 file of several streams only up to the end of the first."),
 ("42e2b61", "C22 C32", "GlobalRankQsc panicked (index out of bounds) for nodes outside of the graph, e.g. an initial size larger than the graph; the other graph-based policies leave such nodes unconfigured."),
 ("5412f52", "C33", "bulk_performance_experiment: a write of CSV output that failed half-way was repeated in full when the CSV writer was dropped; the file held the beginning of the row (or header) twice."),
]
out = []
for c, props, what in F:
    for p in props.split():
        out.append({"property": p, "status": "fixed", "commit": c, "what": what, "line": f"fixed: property={p} {c} {what}"})
json.dump({"findings": out}, open(os.path.join(V, "known_findings.json"), "w"), indent=1)
print(len(out))
