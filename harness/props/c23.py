import random

from hypothesis import strategies as st
from sklearn.tree import DecisionTreeClassifier
import numpy as np

import gen
import ref
from core import Campaign, need
from gen import I, S
from sut import Node
import examples.dtree_experiment as exp

RULE = ('Sequences of 1-6 scikit-learn trees (subsets of generated rows, best and random '
        'splitters, depth up to that of the complete tree, pure data as well) merged as '
        'the experiment does; then paths of the complete tree and of single trees with '
        'some splits marked as removed or never merged. Non-trivial: depth >= 2, two '
        'different trees, a tree that lacks a node, and a node with two candidates.')
ASSUMPTIONS = ['Expected splits, counts and paths are computed from the tree_ arrays of '
               'scikit-learn. Feature values are exact in float32, which scikit-learn '
               'uses internally.']


@st.composite
def cases(draw):
    d = draw(S([1, 2, 2, 3, 3, 4]))
    nf = draw(I(1, 4))
    m = draw(I(3, 24))
    k = draw(I(2, 4))
    vals = draw(S([[0.0, 1.0], [0.0, 1.0, 2.0, 3.0], [-8.0, -0.5, 0.0, 0.25, 3.0, 64.0]]))
    X = [[draw(S(vals)) for _ in range(nf)] for _ in range(m)]
    y = [draw(I(0, k - 1)) for _ in range(m)]
    if gen.chance(draw, 1, 2):
        f, v = draw(I(0, nf - 1)), draw(S(vals))
        y = [(0 if x[f] <= v else 1) if draw(I(0, 5)) else t for x, t in zip(X, y)]
    trees = []
    for _ in range(draw(I(1, 6))):
        trees.append({'rows': draw(S(['all', 'all', 'some'])),
                      'seed': draw(I(0, 1000)), 'random': draw(S([False, False, True])),
                      'depth': draw(S([d, d, d, max(1, d - 1)]))})
    return {'d': d, 'X': X, 'y': y, 'trees': trees, 'late': draw(I(1, 3)),
            'last': draw(S([1, 1000, 5])), 'rm': draw(I(0, 2 ** 16 - 1)) & draw(I(0, 2 ** 16 - 1))}


@st.composite
def large_cases(draw):
    return {'big': draw(I(0, 10 ** 9)), 'd': draw(S([2, 4, 5, 6, 7, 8])), 'nf': draw(I(1, 30)),
            'm': gen.some_rows(draw, (25, 150)), 'k': draw(I(2, 8)), 'n': draw(I(1, 25)),
            'vals': draw(S([2, 5, 40, 1000])), 'scale': draw(S([1.0, 0.125, 1024.0])),
            'late': draw(I(1, 3)), 'last': draw(S([1, 1000, 5, 300]))}


def expand(c):
    rnd = random.Random(c['big'])
    d, nf = c['d'], c['nf']
    X = [[(rnd.randrange(c['vals']) - c['vals'] // 3) * c['scale'] for _ in range(nf)]
         for _ in range(c['m'])]
    if rnd.randrange(2):
        y = [rnd.randrange(c['k']) for _ in X]
    else:
        f = [rnd.randrange(nf) for _ in range(3)]
        y = [(sum(x[j] > 0 for j in f) if rnd.randrange(8) else rnd.randrange(c['k'])) % c['k']
             for x in X]
    trees = [{'rows': rnd.choice(['all', 'some', 'some']), 'seed': rnd.randrange(1000),
              'random': rnd.randrange(3) == 0, 'depth': rnd.choice([d, d, d, max(1, d - 1)])}
             for _ in range(c['n'])]
    return dict(c, X=X, y=y, trees=trees, rm=rnd.getrandbits(16) & rnd.getrandbits(16))


def train(c, s, X, y):
    rng = np.random.RandomState(s['seed'])
    rows = np.arange(len(y)) if s['rows'] == 'all' else rng.randint(0, len(y), len(y))
    dt = DecisionTreeClassifier(max_depth=s['depth'], random_state=s['seed'],
                                splitter='random' if s['random'] else 'best')
    return dt.fit(X[rows], y[rows])


def used(dt):
    """{position in the complete tree: (feature, threshold)}"""
    t = dt.tree_
    out = {}
    todo = [(0, 0)]
    while todo:
        n, pos = todo.pop()
        if t.children_left[n] == -1:
            continue
        out[pos] = (int(t.feature[n]), float(t.threshold[n]))
        todo += [(t.children_left[n], 2 * pos + 1), (t.children_right[n], 2 * pos + 2)]
    return out


def helpers(dt, splits=None):
    t = dt.tree_
    n = t.node_count
    lv = exp.get_is_leaves(n, t.children_left, t.children_right)
    need(list(map(bool, lv)) == [t.children_left[i] == -1 for i in range(n)],
         'get_is_leaves: %s', lv)
    new = exp.get_all_splits(n, t.feature, t.threshold, lv)
    need(sorted((int(f), float(v)) for f, v in new) == sorted(set(used(dt).values())),
         'get_all_splits: %s, the tree uses %s', list(new), sorted(used(dt).values()))

    def nodes(all_splits):
        return exp.get_all_nodes(t.children_left, t.children_right, n, t.feature,
                                 t.threshold, lv, all_splits)
    return new, nodes


def check_splits(comb, pairs):
    lst = exp.get_splits_list(comb)
    need(len(lst) == len(comb) == len(pairs), '%d splits for %s', len(lst), sorted(pairs))
    for i, s in enumerate(lst):
        need(s is not None and s.id == i, 'split id %s at position %d',
             s and s.id, i)
    got = [(int(s.feature), float(s.threshold)) for s in lst]
    need(sorted(got) == sorted(pairs), 'splits %s, the trees use %s', sorted(got),
         sorted(pairs))
    for key, s in comb.items():
        need((int(key[0]), float(key[1])) == (int(s.feature), float(s.threshold)),
             'split %s stored as %s', (s.feature, s.threshold), key)
    return lst, {p: i for i, p in enumerate(got)}


def check_path(c, p, leaf, assign, splits, X, y, what):
    need(p.leaf_id == leaf, '%s: leaf %d instead of %d', what, p.leaf_id, leaf)
    got = dict(zip(p.node_ids, p.splits))
    need(len(p.node_ids) == len(p.splits) == c['d'] and got == assign,
         '%s: leaf %d uses %s, expected %s', what, leaf, got, assign)
    pairs = {n: (int(splits[s].feature), float(splits[s].threshold))
             for n, s in assign.items()}
    cnt = {}
    rows = []
    for r, x in enumerate(c['X']):
        if all((x[pairs[n][0]] <= pairs[n][1]) == gl
               for n, gl in ref.leaf_path(c['d'], leaf)):
            cnt[c['y'][r]] = cnt.get(c['y'][r], 0) + 1
            rows.append(r)
    best = max(cnt.values(), default=0)
    need(p.cost == best, '%s: leaf %d, splits %s: cost %s, counts %s', what, leaf, pairs,
         p.cost, cnt)
    need(cnt.get(p.target, 0) == best and p.target in c['y'],
         '%s: leaf %d, splits %s: target %s, counts %s', what, leaf, pairs, p.target, cnt)
    return rows


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    d = c['d']
    X, y = np.array(c['X'], dtype=float), np.array(c['y'])
    nn = 2 ** d - 1
    splits, nodes = {}, {}
    for i in range(nn):
        n = Node()
        n.id = i
        n.candidate_splits = []
        nodes[i] = n
    pairs, seen, last = set(), [{} for _ in range(nn)], [None] * nn
    dts = [train(c, s, X, y) for s in c['trees']]
    for k, dt in enumerate(dts):
        weight = c['last'] if k == len(dts) - 1 else 1
        new, mk = helpers(dt)
        splits = exp.merge_all_splits(splits, new)
        tn = mk(splits)
        u = used(dt)
        pairs |= set(u.values())
        lst, ids = check_splits(splits, pairs)
        need(sorted(tn) == sorted(u), 'nodes %s, the tree has %s', sorted(tn), sorted(u))
        for pos, pair in u.items():
            need(tn[pos].id == pos and tn[pos].last_split == ids[pair] and
                 list(tn[pos].candidate_splits) == [ids[pair]],
                 'node %d has the candidates %s, expected [%d]', pos,
                 tn[pos].candidate_splits, ids[pair])
            seen[pos][pair] = seen[pos].get(pair, 0) + weight
            last[pos] = pair
        nodes = exp.merge_all_nodes(nodes, tn, weight) if weight != 1 else \
            exp.merge_all_nodes(nodes, tn)
        nl = exp.get_nodes_list(nodes)
        need(len(nl) == nn and [n.id for n in nl] == list(range(nn)), 'node list %s',
             [n and n.id for n in nl])
        for pos in range(nn):
            got = list(zip(nl[pos].candidate_splits, nl[pos].candidate_splits_count))
            exp_ = sorted((ids[p], w) for p, w in seen[pos].items())
            need(len(nl[pos].candidate_splits) == len(nl[pos].candidate_splits_count) and
                 sorted(got) == exp_, 'node %d: candidates and counts %s, expected %s', pos,
                 got, exp_)
            if last[pos] is not None:
                need(nl[pos].last_split == ids[last[pos]], 'node %d: last split %d, '
                     'expected %d', pos, nl[pos].last_split, ids[last[pos]])
    lst, ids = check_splits(splits, pairs)
    if not lst:
        rec.label('no split at all')
        return
    final = []
    for pos in range(nn):
        if not nodes[pos].candidate_splits:
            nodes[pos].candidate_splits.append(0)
            nodes[pos].candidate_splits_count.append(0)
            nodes[pos].last_split = 0
        final.append(ids[last[pos]] if last[pos] is not None else 0)
    leaves, paths = exp.get_all_leaves_paths(nodes, d, lst, X, y)
    leaves, plist = exp.get_leaves_list(leaves), exp.get_paths_list(paths)
    need(len(leaves) == len(plist) == 2 ** d, '%d leaves, %d paths', len(leaves), len(plist))
    need(len({p.id for p in plist}) == len(plist), 'path ids %s', [p.id for p in plist])
    where = []
    for i, p in enumerate(sorted(plist, key=lambda q: q.leaf_id)):
        exp_ = ref.leaf_path(d, i)
        need(leaves[i].id == i and
             set(leaves[i].left_nodes) == {n for n, gl in exp_ if gl} and
             set(leaves[i].right_nodes) == {n for n, gl in exp_ if not gl},
             'leaf %d: left %s right %s', i, leaves[i].left_nodes, leaves[i].right_nodes)
        where += check_path(c, p, i, {n: final[n] for n, _ in exp_}, lst, X, y,
                            'complete tree')
    need(sorted(where) == list(range(len(y))), 'rows in leaves: %s', sorted(where))
    right = int(round(dts[-1].score(X, y) * len(y)))
    total = sum(p.cost for p in plist)
    need(total >= right, 'the paths classify %d rows correctly, scikit-learn %d', total,
         right)
    # Single trees, some splits removed, new trees with unknown splits.
    for s in lst:
        s.removed = bool(c['rm'] >> (s.id % 16) & 1)
    late = [train(c, {'rows': 'some', 'seed': 7 * i + c['rm'], 'random': i % 2 == 0,
                      'depth': d}, X, y) for i in range(c['late'])]
    refused = kept = 0
    for dt in dts + late:
        _, mk = helpers(dt)
        tn = mk(splits)
        u = used(dt)
        for leaf in leaves:
            p = exp.get_path_for_leaf(leaf, tn, d, lst, X, y)
            need_nodes = [n for n, _ in ref.leaf_path(d, leaf.id)]
            ok = all(n in u and u[n] in ids and not lst[ids[u[n]]].removed
                     for n in need_nodes)
            need((p is not None) == ok, 'leaf %d of the tree %s, removed splits %s: path %s',
                 leaf.id, u, [s.id for s in lst if s.removed],
                 'refused' if p is None else 'not refused')
            if ok:
                kept += 1
                check_path(c, p, leaf.id, {n: ids[u[n]] for n in need_nodes}, lst, X, y,
                           'single tree')
            else:
                refused += 1
    us = [used(dt) for dt in dts]
    rec.label('depth %d' % d, '%d trees' % len(dts) if len(dts) < 7 else 'many trees')
    rec.lab(len(lst) > 100, 'more than 100 splits')
    rec.lab(refused, 'path refused')
    rec.lab(kept, 'path of a single tree')
    rec.lab(total > right, 'better than scikit-learn')
    rec.lab(any(l is None for l in last), 'node never used')
    rec.nt(d > 1 and any(u != us[0] for u in us) and any(len(u) < nn for u in us)
           and any(len(s) > 1 for s in seen))


CAMPAIGNS = [
    Campaign('import', cases(), check, quick=4000),
    Campaign('large', large_cases(), check, quick=96),
]
