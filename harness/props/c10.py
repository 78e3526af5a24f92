from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from sut import Leaf, Path, dtmod
import numpy as np

RULE = ('Depth 1..7, any split per node (repetitions on a path allowed), values on, '
        'just above and just below thresholds, listing orders. Non-trivial for '
        'routing: depth >= 2, at least two leaves reached and a value equal to a '
        'threshold; for equality: a pair of paths that differ in exactly one respect '
        'or only in the listing order.')
ASSUMPTIONS = ['Nodes 2i+1 / 2i+2, left iff value <= threshold (README, class '
               'documentation).']

VALS = [-7.5, -1.0, 0.0, 0.5, 1.0, 2.0, 3.25, 1e6]
NEXT = sorted(VALS + [float(np.nextafter(v, 1e9)) for v in VALS]
              + [float(np.nextafter(v, -1e9)) for v in VALS])


@st.composite
def routing(draw):
    d = draw(S([1, 2, 2, 3, 3, 4, 5, 6, 7]))
    nf = draw(I(1, 4))
    ns = draw(I(1, 8))
    splits = [[draw(I(0, nf - 1)), draw(S(VALS))] for _ in range(ns)]
    assign = [draw(I(0, ns - 1)) for _ in range(2 ** d - 1)]
    X = [[draw(S(NEXT)) for _ in range(nf)] for _ in range(draw(I(1, 10)))]
    return {'d': d, 'splits': splits, 'assign': assign, 'X': X,
            'order': draw(st.permutations(range(d))), 'again': draw(I(0, 2 ** d - 1)),
            'spoil': draw(gen.B)}


@st.composite
def large_routing(draw):
    return {'big': draw(gen.big_tree(depths=(2, 4, 6, 7, 8, 9, 10, 11, 12), m=(40, 200), nf=(1, 12),
                                     ns=(5, 60), nc=(5, 60)))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'], trees=1)
    d = out['d']
    X = out['X']
    for _ in range(len(X) // 4):
        x, (f, t) = X[rnd.randrange(len(X))], rnd.choice(out['splits'])
        x[f] = rnd.choice([t, float(np.nextafter(t, 1e9)), float(np.nextafter(t, -1e9))])
    return {'d': d, 'splits': out['splits'], 'assign': out['trees'][0], 'X': X,
            'order': rnd.sample(range(d), d), 'again': rnd.randrange(2 ** d),
            'spoil': rnd.randrange(2)}


def check_routing(c, rec):
    if 'big' in c:
        c = expand(c)
    d, splits, assign = c['d'], c['splits'], c['assign']
    X = np.array(c['X'], dtype=float)
    sp = sut.make_splits(splits, c['X'])
    before = [(set(s.left_rows), set(s.right_rows)) for s in sp]
    want = [ref.walk(x, d, assign, splits) for x in c['X']]
    nl = 2 ** d
    accept = [set() for _ in want]
    sets = []
    leaf = Leaf()
    for l in range(nl):
        exp = ref.leaf_path(d, l)
        for obj in (Leaf(), leaf):      # a fresh one and one re-used
            obj.create_leaf(l, d)
            need(obj.id == l, 'leaf id %r instead of %d', obj.id, l)
            need(sorted(obj.left_nodes) == sorted(n for n, g in exp if g)
                 and sorted(obj.right_nodes) == sorted(n for n, g in exp if not g),
                 'depth %d leaf %d: left nodes %s right nodes %s, path %s', d, l,
                 obj.left_nodes, obj.right_nodes, exp)
            if c.get('spoil'):
                # the lists belong to the caller
                obj.left_nodes.append(-7)
                obj.right_nodes.clear()
                p = Path()
                p.set_leaf(l, d)
                p.node_ids.insert(0, -5)
        p = Path()
        p.set_leaf(c['again'], d)
        p.set_leaf(l, d)
        need(p.leaf_id == l and sorted(p.node_ids) == sorted(n for n, _ in exp),
             'depth %d: path to leaf %d has nodes %s, expected %s', d, l, p.node_ids, exp)
        p.node_ids = [p.node_ids[i] for i in c['order']]
        p.splits = [assign[n] for n in p.node_ids]
        own = Leaf()
        own.create_leaf(l, d)
        rows = set(dtmod.get_satisfied_rows(p, own, sp))
        sets.append(rows)
        for i in range(len(X)):
            if dtmod.row_satisfies_path(X[i], own, sp, p):
                accept[i].add(l)
    for i, w in enumerate(want):
        need(accept[i] == {w}, 'row %s satisfies the paths of leaves %s, walking the '
             'tree gives %d', c['X'][i], sorted(accept[i]), w)
        got = {l for l in range(nl) if i in sets[l]}
        need(got == {w}, 'row %d is in the row sets of the paths to %s, walking the tree '
             'gives %d', i, sorted(got), w)
    need([(set(s.left_rows), set(s.right_rows)) for s in sp] == before,
         'row sets of the splits changed')
    ties = any(x[splits[s][0]] == splits[s][1] for x in c['X'] for s in assign)
    rec.lab(ties, 'value on a threshold')
    rec.label('depth %d' % d)
    rec.nt(d >= 2 and len(set(want)) > 1 and ties)


@st.composite
def pairs(draw):
    d = draw(S([1, 2, 3, 4, 5, 3, 4, 5, 8, 12]))
    top = draw(S([2, 2, 2, 300]))
    leaf = draw(I(0, 2 ** d - 1))
    splits = [draw(I(0, top + 1)) for _ in range(d)]
    costs = draw(S([I(0, 5), I(0, 5), I(0, 100000), S([0.5, 1.0, 2.0, 2.5, 1e-6, 1e9])]))
    a = {'leaf': leaf, 'splits': splits, 'target': draw(I(0, top)), 'cost': draw(costs),
         'order': list(range(d))}
    b = dict(a, splits=list(splits), order=draw(st.permutations(range(d))))
    kind = draw(S(['same', 'same', 'leaf', 'split', 'target', 'cost', 'swap', 'any']))
    if kind == 'leaf':
        b['leaf'] = draw(I(0, 2 ** d - 1))
    elif kind == 'split':
        b['splits'][draw(I(0, d - 1))] = draw(I(0, top + 1))
    elif kind == 'target':
        b['target'] = draw(I(0, top))
    elif kind == 'cost':
        b['cost'] = draw(costs)
    elif kind == 'swap':
        b['splits'] = draw(st.permutations(splits))
    elif kind == 'any':
        b['splits'] = [draw(I(0, top + 1)) for _ in range(d)]
    return {'d': d, 'a': a, 'b': b, 'ids': [draw(I(-1, 5)), draw(I(-1, 5))],
            'init': [draw(gen.B), draw(gen.B)]}


def check_pairs(c, rec):
    d = c['d']
    objs = []
    for k, q in enumerate((c['a'], c['b'])):
        p = Path()
        p.set_leaf(q['leaf'], d)
        nodes = sorted(p.node_ids)
        p.node_ids = [nodes[i] for i in q['order']]
        p.splits = [q['splits'][i] for i in q['order']]
        p.target, p.cost, p.id = q['target'], q['cost'], c['ids'][k]
        p.initial = c['init'][k]
        objs.append(p)
    a, b = c['a'], c['b']
    diff = [k for k in ('leaf', 'splits', 'target', 'cost') if a[k] != b[k]]
    for x, y in (objs, objs[::-1]):
        got = bool(x.is_same_as(y))
        need(got == (not diff), 'is_same_as gives %s for paths differing in %s: %s %s',
             got, diff, a, b)
    need(objs[0].is_same_as(objs[0]), 'path not equal to itself')
    rec.label('differs in ' + ('+'.join(diff) or 'nothing'))
    rec.nt(d > 1 and (len(diff) == 1 or (not diff and a['order'] != b['order'])))


CAMPAIGNS = [
    Campaign('routing', routing(), check_routing, quick=8000),
    Campaign('large', large_routing(), check_routing, quick=100),
    Campaign('equality', pairs(), check_pairs, quick=12000),
]
