import json
T={
'C01':("every FBAS of the universe in each ID layout; `find_minimal_quorums` and `Analysis::minimal_quorums` against brute force over all node subsets (set equality, no duplicates, order by size)","the search prunes by sorting, component splitting and a symmetric shortcut; tests hit few of the combinations (repeats, nesting, several clusters)"),
'C02':("as C01 for FBASs with a quorum; minimal hitting sets of all quorums by brute force","several clusters, partially unsatisfiable sets"),
'C03':("as C01; minimal pairwise intersections of brute-force minimal quorums; front end: exactly {{}} without quorum intersection","nested symmetric clusters are not in the tests"),
'C04':("as C01; both checks, each first, between and after other queries, against brute force","caching between checks depends on the order"),
'C05':("as C01; every reported witness is checked against the definition (non-empty, quorum, pairwise disjoint, IDs), existence against brute force; front end and library function","the tests check one witness"),
'C06':("as C01; top tier on fresh objects and after several query histories against the union of brute-force minimal quorums and blocking sets","answers come from different caches depending on history"),
'C07':("as C01; symmetric clusters and top tier against the definition evaluated on brute-force components","the definition involves depth, components, and satisfiability"),
'C08':("explicit-state: every sequence of queries up to depth 3 (all 11 queries) and 4 (stateful ones) on each of several hundred FBASs; every answer against a fresh object, every earlier result re-read at the end; and every history of edits of one FBAS with analyses of the earlier versions kept alive","caches and ID translation are history dependent; tests query in one order"),
'C09':("every node order (up to 4 nodes) × paddings × namings × (JSON | built), and IDs beyond 64, 128, 300-apart, 65 536","bit-set growth, shrinking and name tables"),
'C10':("every quorum set of the alphabets × every node set (satisfaction, slices sound and complete); every FBAS × every node set (`is_quorum`)","repeated validators, thresholds 0 / too high / 2^64-1"),
'C11':("every FBAS (up to 5 nodes: every node subset) against fixpoint and reachability definitions, zig-zag chains up to 10+ nodes; cascades of hundreds of nodes","iteration order bugs need long chains"),
'C12':("every node order × irrelevant padding × key sets: equal standard forms, JSON, and results by key","canonicity is a relation between pairs of inputs"),
'C13':("document grammar (fields missing / null / unknown, key sets incl. white space and case variants, thresholds to 2^64-1, unknown keys that resemble known or generic names) and every history of building, changing, writing, reading up to depth 4","round trip for all inputs"),
'C14':("every FBAS × every subset (and subsets of those up to 4 nodes); ID translation both ways; groupings alongside; subsets of systems of tens of thousands of nodes","all subsets"),
'C15':("every assignment of listed names (empty, punctuation, multi-byte, case variants) to nodes; every character up to U+024F (and special ones beyond) in every position of a name; every list of organizations × members; up to 65 537 groups","string edge cases"),
'C16':("every partition of up to 6 nodes × every family of node sets; every sane quorum set × every union of groups (semantic equivalence); analysis results; large families, with and without groups","semantic preservation for all sets of groups"),
'C17':("every chain of post-processing steps (depth 2–4) on every result of each listed FBAS; statistics recomputed from the sets; chains over larger systems too","lazily shrunken IDs make steps order dependent"),
'C18':("results after every chain of steps × groupings (also unnamed and bracketed names) × every output form, parsed by an independent JSON reader","all forms must agree"),
'C19':("every family of up to 5 sets over 3 nodes, 4 over 4, 3 over 5, … dense and sparse IDs; complete layers of subsets; families of 1 000–2 400 sets","quadratic helpers with early exits"),
'C20':("every FBAS × every subset and order of nodes; the documented iteration in exact steps; systems of hundreds of nodes","order independence"),
'C21':("scripted policy; every visit order × every answer sequence (explored depth-first through the controlled `rand`), the event history against the prescribed one; hundreds of rounds","schedules"),
'C22':("every policy × every directed graph up to 3 nodes, every undirected of 4 × every visit order, each single configuration step compared; fixpoint after; graphs of hundreds of nodes","schedules × graphs"),
'C23':("every random outcome of RandomQsc (sizes, weights, thresholds, existing sets), outcome set and exact probability against the specification","all outcomes, not one seed"),
'C24':("every random outcome of the generators; exact distribution over graphs (scale-free and small-world); every choice for the last node of larger scale-free graphs (hubs with hundreds of links), with its weight; every choice of the one rewired link of small worlds of up to 300 nodes or 60 links per node; every tier vector; every relabelling","all outcomes"),
'C25':("every list of up to 3 relationship lines × text styles × file names (plain, bzip2) ; every undirected graph up to 5 nodes in every neighbour order, written and read","all orders"),
'C26':("every directed graph up to 4 nodes, every undirected up to 6, structured ones renumbered, nodes with up to dozens of links in several orders; metrics by definition, page rank within the documented tolerance; graphs of tens of thousands of nodes","all graphs"),
'C27':("67% threshold for every n up to 10^7 and around every power of two and ten up to 2^50; relative thresholds, also next to every fraction and as configured by the policies; every set of faulty nodes of ideal / super safe configurations up to 13 nodes","fault patterns"),
'C28':("the real binary with every combination of 13 options on several documents (every 4th on others; all in thorough) plus varied documents; everything printed compared with the definitions","option interactions: 8192 per document"),
'C29':("the real binary under the controlled scheduler: every completion order, every interleaving of file readings, every argument order, every file name of up to three parts × organizations name; each row recomputed from the definitions (fingerprint: SHA3 of the standard form, checked itself by C12)","schedules"),
'C30':("every history of runs (with/without update) over every subset of 3 inputs × 9 initial files; covered inputs made unreadable so recomputation is visible; every label of special characters","histories"),
'C31':("SIGKILL at every waiting point of every order; kill / torn write / failing write at every write and opening of the output, for new and updated files; then completion by update","crash points and fault sequences"),
'C32':("every policy × graph × source × sizes for the deterministic policies; for the others the tools built with controlled `rand`, once per sequence of choices, exact distributions","random outcomes through the tools"),
'C33':("every parameter combination up to a bound × output kinds; every history of 2 runs from several initial files; SIGKILL while a row is taken over or after any progress message; every kill, failing, torn and short write and failing opening of the output, then completion by update; rows recomputed; networks of more nodes","histories"),
'C35':("every FBAS x every set of faulty nodes (all 2^n): results without these nodes, minimised, against brute-force definitions and against analysing the FBAS in which they have crashed; nodes named by key, unknown, repeated and by organization; larger systems by closed forms","what-if answers for all fault sets, shrunken and padded numberings"),
'C36':("real tools on inputs cut at every byte, with every JSON value replaced by wrong kinds or required fields dropped, compressed graphs with every byte changed, broken inputs of the bulk analyzer at every position, existing results cut at every byte and updated","all cut points instead of four broken files"),
'C34':("extreme documents (thresholds 0..2^64-1, repeats, unknown, empty, deep, many nodes) through every query, step and output form with panic capture and a watchdog; lists of 150 000 names","total inputs"),
}
props={json.loads(l)['id']:json.loads(l) for l in open('properties.jsonl')}
for k,(a,b) in T.items():
    e=json.load(open('evidence/%s.json'%k)); c=e['coverage']
    st=sum(f['states'] for f in c['families']); tr=sum(f['transitions'] for f in c['families'])
    print('* **%s — %s.** %s. *Beyond the tests:* %s. (%s states, %s transitions, %d s)'%(k,props[k]['title'],a[0].upper()+a[1:],b,f'{st:,}'.replace(',',' '),f'{tr:,}'.replace(',',' '),round(e['wall_s'])))
