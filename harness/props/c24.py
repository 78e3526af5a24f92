import random

from hypothesis import strategies as st

import gen
import sut
from core import Campaign, need
from gen import I, S
from sut import Node, Split
import examples.dtree_experiment as exp

RULE = ('Trees of depth 1-4 with any candidate lists (distinct ids per node), counts '
        'with ties and zeros, q values below, at and above the list lengths, splits '
        'used nowhere. Non-trivial: some node loses a candidate, counts are not all '
        'equal, and some split survives at one node but is cut at another.')
ASSUMPTIONS = ['Among equal counts any candidates may be kept.']


@st.composite
def cases(draw):
    d = draw(S([1, 2, 2, 3, 3, 4]))
    ns = draw(I(1, 10))
    nodes = []
    hi = draw(S([1, 3, 10, 1000]))
    for _ in range(2 ** d - 1):
        k = draw(I(1, ns))
        ids = draw(st.permutations(range(ns)))[:k]
        nodes.append([list(ids), [draw(I(0, hi)) for _ in ids]])
    return {'ns': ns, 'nodes': nodes, 'qr': draw(I(1, 6)), 'qn': draw(I(1, 6)),
            'flag': [draw(gen.B) for _ in range(ns)], 'twice': draw(S([0, 0, 1]))}


@st.composite
def large_cases(draw):
    return {'big': draw(I(0, 10 ** 9)), 'd': draw(S([1, 3, 5, 7, 9])), 'ns': draw(I(10, 420)),
            'hi': draw(S([0, 3, 100, 1000, 10 ** 6])), 'qr': draw(I(1, 300)),
            'qn': draw(I(1, 120)), 'twice': draw(S([0, 0, 1, 2]))}


def expand(c):
    rnd = random.Random(c['big'])
    ns = c['ns']
    nodes = []
    for _ in range(2 ** c['d'] - 1):
        k = rnd.randint(1, rnd.choice([3, 40, ns]))
        ids = rnd.sample(range(ns), min(k, ns))
        nodes.append([ids, [rnd.randint(0, c['hi']) for _ in ids]])
    return dict(c, nodes=nodes, flag=[rnd.randrange(2) for _ in range(ns)])


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    splits = []
    for i in range(c['ns']):
        s = Split()
        s.id, s.feature, s.threshold, s.removed = i, 0, float(i), c['flag'][i]
        splits.append(s)
    nodes = []
    for i, (ids, cnt) in enumerate(c['nodes']):
        n = Node()
        n.id, n.candidate_splits, n.candidate_splits_count = i, list(ids), list(cnt)
        n.last_split = ids[-1]
        nodes.append(n)
    out = nodes
    for _ in range(1 + c['twice']):
        out = exp.reduce_splits(out, splits, c['qr'], c['qn'])
    need(len(out) == len(nodes), '%d nodes returned for %d', len(out), len(nodes))
    used = set()
    for i, n in enumerate(out):
        ids, cnt = c['nodes'][i]
        q = c['qr'] if i == 0 else c['qn']
        need(n.id == i, 'node %d at position %d', n.id, i)
        got, gcnt = list(n.candidate_splits), list(n.candidate_splits_count)
        need(len(got) == len(gcnt) == len(set(got)) == min(q, len(ids)),
             'node %d keeps %s with counts %s of %s, q = %d', i, got, gcnt, ids, q)
        by = dict(zip(ids, cnt))
        for s, k in zip(got, gcnt):
            need(s in by and by[s] == k, 'node %d: split %s kept with count %s, was %s',
                 i, s, k, by)
        low = min(gcnt)
        gone = [s for s in ids if s not in got]
        need(all(by[s] <= low for s in gone), 'node %d keeps %s and drops %s, counts %s',
             i, got, gone, by)
        need(n.last_split == ids[-1], 'last split of node %d changed', i)
        used |= set(got)
    need([s.id for s in splits] == list(range(c['ns'])), 'splits reordered')
    for s in splits:
        need(bool(s.removed) == (s.id not in used), 'split %d: removed=%s, kept at %s',
             s.id, s.removed, [n.id for n in out if s.id in n.candidate_splits])
    cut = [s for i, (ids, _) in enumerate(c['nodes']) for s in ids
           if s not in out[i].candidate_splits]
    rec.lab(cut, 'some candidate cut')
    rec.lab(any(s.removed for s in splits), 'some split removed')
    rec.lab(any(len(set(k)) < len(k) for _, k in c['nodes']), 'equal counts')
    rec.nt(cut and any(s in used for s in cut)
           and any(len(set(k)) > 1 for _, k in c['nodes']))


CAMPAIGNS = [
    Campaign('reduce', cases(), check, quick=12000),
    Campaign('large', large_cases(), check, quick=480),
]
