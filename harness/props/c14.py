import random

from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from props.c11 import rows_for
from props.c13 import duals_round, random_round
from sut import DTreeSubProblemHeuristic

RULE = ('Depth 1-3, generated data, rows raw / annotated / aggregated with weights, '
        '1-4 rounds of duals with cuts, seed of the global random generator. '
        'Non-trivial: at least two returned paths of which one has depth >= 2, while '
        'some complete candidate path is not improving.')
ASSUMPTIONS = ['Duals of removed rows are 0. Reduced costs within 1e-5 of the threshold '
               'are free.']


@st.composite
def cases(draw):
    c = draw(gen.tree_data(max_rows=14, min_rows=2, depths=(1, 2, 2, 2, 3),
                           max_splits=6))
    c['rowmode'] = draw(S(['own', 'aggressive', 'aggressive', 'plain', 'normal']))
    c['rseed'] = draw(I(0, 10 ** 6))
    c['rounds'] = []
    k = 0
    for _ in range(draw(I(1, 4))):
        r = None
        news = None
        nss = []
        for leaf in range(2 ** c['d']):
            c['leaf'] = leaf
            if r is None:
                prev = c['rounds'][-1] if c['rounds'] else None
                if prev:
                    prev = dict(prev, ns=prev['ns'][0])
                r, k = draw(duals_round(c, k, prev))
                nss.append(r['ns'])
                deltas = [r['delta']]
            else:
                nss.append([[j, [draw(I(-8, 8)) / 8 if gen.chance(draw, 1, 4) else 0.0
                                 for _ in c['cands'][j]]]
                            for j, _ in ref.leaf_path(c['d'], leaf)])
                deltas.append(draw(S([-1.0, 0.0, 0.125, 0.5, 1.0, 2.0, 5.0])))
        c['rounds'].append({'row': r['row'], 'new': r['new'], 'cut': r['cut'],
                            'price': r['price'], 'ns': nss, 'delta': deltas})
    del c['leaf']
    c['rounds'][-1]['price'] = True
    return c


@st.composite
def large_cases(draw):
    return {'big': draw(gen.big_tree(depths=(1, 2, 3, 3, 4), m=(30, 150), nf=(2, 8), top=2000,
                                     ns=(4, 12), nc=(3, 6))),
            'rowmode': draw(S(['own', 'aggressive', 'aggressive', 'normal'])),
            'nr': draw(I(1, 4))}


@st.composite
def many_cases(draw):
    """Hundreds of rows on one path, all paths improving."""
    return {'big': draw(gen.big_tree(depths=(1, 1, 2), m=(300, 1500), nf=(1, 3), k=(2, 3),
                                     ns=(2, 6), nc=(2, 4))),
            'rowmode': draw(S(['own', 'aggressive', 'normal'])),
            'nr': draw(I(1, 2)), 'deltas': [1.0, 300.0, 5000.0, 5000.0]}


@st.composite
def long_cases(draw):
    """Many rounds on one heuristic, many cuts."""
    return {'big': draw(gen.big_tree(depths=(1, 2, 2, 3), m=(5, 30), nf=(1, 4), ns=(2, 7),
                                     k=(2, 3), nc=(2, 4), top=300)),
            'rowmode': draw(S(['own', 'aggressive', 'normal'])), 'nr': draw(I(6, 40))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'])
    if out['d'] == 4:
        out['cands'] = [x[:3] for x in out['cands']]
    out['rowmode'] = c['rowmode']
    out['rseed'] = rnd.randrange(10 ** 6)
    out['rounds'] = []
    k = 0
    for _ in range(c['nr']):
        r, k = random_round(rnd, out, k, range(2 ** out['d']),
                            *([c['deltas']] if 'deltas' in c else []))
        out['rounds'].append(r)
    out['rounds'][-1]['price'] = True
    return out


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t = sut.TreeSUT(c)
    td = t.td
    rows = rows_for(c['rowmode'], t)
    gone = {r for r in range(td.n) if rows and (rows[r].removed_from_sp
                                                or rows[r].removed_from_master)}
    sp = DTreeSubProblemHeuristic(t.leaves, t.nodes, t.splits, sut.listed(td.classes, td.n), t.depth,
                                  data_rows=rows)
    random.seed(c['rseed'])
    L = range(2 ** t.depth)
    before = [(list(n.candidate_splits)) for n in t.nodes]
    cuts = []
    for ri, r in enumerate(c['rounds']):
        cuts += r['new']
        row = [0.0 if i in gone else v for i, v in enumerate(r['row'])]
        ns = {l: {n: dict(zip(c['cands'][n], vs)) for n, vs in r['ns'][l]} for l in L}

        def base(leaf, a):
            v = -sum(row[i] for i in ref.bits(td.rows(leaf, a)))
            v -= sum(ns[leaf][n][s] for n, s in a.items())
            for d, cut in zip(r['cut'], cuts):
                if ref.agrees(t.depth, leaf, a, cut):
                    v -= d
            return v
        leafd = []
        bad = False
        for l in L:
            vals = [base(l, a) + td.majority(td.rows(l, a)) for a in td.paths(l)]
            leafd.append(max(vals) - r['delta'][l])
            bad = bad or min(vals) <= leafd[-1]
        duals = (leafd, row, ns, list(r['cut']), [list(x) for x in r['new']])
        sp.update_subproblem(t.X, t.y, duals)
        if not r['price']:
            continue
        got = sp.generate_columns(t.X, t.y, duals, '')
        what = 'round %d' % ri
        for i, p in enumerate(got):
            need(p.leaf_id in L, '%s: leaf %r', what, p.leaf_id)
            nodes = {n for n, _ in ref.leaf_path(t.depth, p.leaf_id)}
            need(len(p.node_ids) == len(p.splits) == t.depth and set(p.node_ids) == nodes,
                 '%s: path to leaf %d has nodes %s, splits %s', what, p.leaf_id, p.node_ids,
                 p.splits)
            a = sut.assign_of(p)
            need(all(a[n] in c['cands'][n] for n in nodes), '%s: %s uses splits that are no '
                 'candidates (%s)', what, a, c['cands'])
            need(len(set(p.splits)) == t.depth, '%s: split repeated in %s', what, p.splits)
            need(p.target in td.classes, '%s: target %r', what, p.target)
            m = td.rows(p.leaf_id, a)
            true = td.count(m, p.target)
            need(abs(p.cost - true) < 1e-6, '%s: path leaf=%d %s target %d has cost %g, %d '
                 'rows follow it with this class', what, p.leaf_id, a, p.target, p.cost, true)
            need(true == td.majority(m), '%s: path leaf=%d %s has target %d with %d rows, '
                 'the most frequent class has %d', what, p.leaf_id, a, p.target, true,
                 td.majority(m))
            rc = base(p.leaf_id, a) + true - leafd[p.leaf_id]
            need(rc > -1e-5, '%s: path leaf=%d %s has reduced cost %g', what, p.leaf_id, a, rc)
            key = (p.leaf_id, sorted(a.items()), p.target)
            for q in got[:i]:
                need((q.leaf_id, sorted(sut.assign_of(q).items()), q.target) != key,
                     '%s: path %s returned twice', what, key)
            rec.lab(m == 0, 'path without rows')
        rec.lab(got, 'paths returned')
        rec.lab(cuts, 'with cuts')
        rec.lab(gone, 'removed rows')
        rec.nt(len(got) > 1 and t.depth > 1 and bad)
    need([list(n.candidate_splits) for n in t.nodes] == before, 'candidates changed')
    rec.label('depth %d' % t.depth)
    rec.lab(len(cuts) > 12, 'more than twelve cuts')


CAMPAIGNS = [
    Campaign('rounds', cases(), check, quick=3000),
    Campaign('large', large_cases(), check, quick=160),
    Campaign('long', long_cases(), check, quick=120),
    Campaign('many', many_cases(), check, quick=80),
]
