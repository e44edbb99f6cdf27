#!/usr/bin/env python3
"""Compact copies of the real FBASs in test_data: quorum sets as [threshold,[validators],[inner]] by node index."""
import json
for name in ['broken', 'correct', 'stellarbeat_nodes_2019-09-17', 'stellarbeat_nodes_2020-01-16_broken_by_hand']:
    d = json.load(open('/repo/test_data/%s.json' % name))
    ids = {}
    for i, n in enumerate(d):
        ids.setdefault(n['publicKey'], i)
    assert len(ids) == len(d)
    def q(x):
        if not x: return [0, [], []]
        return [x.get('threshold', 0), [ids[v] for v in x.get('validators', []) if v in ids], [q(y) for y in x.get('innerQuorumSets', [])]]
    tab, nodes = [], []
    for n in d:
        s = q(n.get('quorumSet'))
        if s not in tab: tab.append(s)
        nodes.append(tab.index(s))
    open('/verif/mc/data/%s.json' % name, 'w').write(json.dumps({'quorum_sets': tab, 'nodes': nodes}, separators=(',', ':')) + '\n')
