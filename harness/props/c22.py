import random

from hypothesis import strategies as st
import numpy as np

import gen
import ref
import sut
from boot import CLOCK
from core import Campaign, Known, Violation, need
from gen import I, S
from sut import DTreeMasterProblem
import examples.dtree_experiment as exp

RULE = ('Trees of depth 1-4 with any candidates, data with repeated and nearly repeated '
        'rows (also with other labels), values on thresholds, both modes of the '
        'experiment and of the master, a time limit that strikes at a generated '
        'clock reading. Non-trivial: depth >= 2, some row is removed and some row '
        'stays (aggressive: some row merged into another one).')
ASSUMPTIONS = ['Reachable nodes and leaves: those some choice of candidate splits sends '
               'the row to. LPs by scipy HiGHS over random pools with a complete tree and '
               'over all candidate paths (true costs of the best or any other class).']


@st.composite
def cases(draw, lp=True):
    c = draw(gen.tree_data(max_rows=9 if lp else 16, min_rows=3,
                           depths=(1, 2, 2, 2, 3) if lp else (1, 2, 3, 3, 4),
                           max_splits=5 if lp else 8, wide_cands=draw(gen.B),
                           min_splits=2))
    # near copies: same features but one, another label
    m = len(c['X'])
    for _ in range(draw(I(0, 4))):
        i, j = draw(I(0, m - 1)), draw(I(0, m - 1))
        x = list(c['X'][j])
        if draw(gen.B):
            x[draw(I(0, len(x) - 1))] = draw(S([0.0, 0.5, 1.0, 2.0, 2.5, 3.0]))
        y = c['y'][j] if draw(S([0, 1])) else draw(I(0, 2))
        if c['y'].count(c['y'][i]) > 1 and y in c['y']:
            c['X'][i], c['y'][i] = x, y
    c['agg'] = draw(S([True, True, False]))
    c['by'] = draw(S(['exp', 'master'])) if lp else 'exp'
    c['limit'] = draw(S([None, None, None, 0, 0.5, 3.5, 7.5, 15.5, 40.5, -1]))
    c['pseed'] = draw(I(0, 10 ** 6))
    c['gone'] = [draw(S([False, False, False, True])) for _ in c['splits']]
    c['used'] = draw(I(0, c['d'] - 1)) if c['by'] == 'master' and draw(gen.B) else 0
    return c


def reach(depth, cands, left):
    """Nodes and leaves under some choice of candidates."""
    nodes, leaves, todo = set(), set(), [0]
    first = 2 ** depth - 1
    while todo:
        n = todo.pop()
        if n >= first:
            leaves.add(n - first)
            continue
        nodes.add(n)
        for s in set(cands[n]):
            todo.append(2 * n + (1 if s in left else 2))
        todo = list(set(todo))
    return nodes, leaves


@st.composite
def again(draw):
    """Nodes that the experiment preprocessed for a smaller tree before."""
    c = draw(cases(lp=False))
    c['nolp'], c['by'], c['limit'] = 1, 'exp', None
    c['used'] = draw(I(1, max(1, c['d'] - 1)))
    return c


@st.composite
def large_cases(draw):
    if gen.chance(draw, 1, 3):
        # many candidates at every node
        data = draw(gen.big_tree(depths=(1, 2, 2, 2, 3), m=(6, 60), nf=(1, 5), ns=(12, 70),
                                 nc=(10, 50), top=260, vals=draw(S(['int', 'real', 'few']))))
    elif gen.chance(draw, 1, 3):
        # more splits than bits in a word, candidates anywhere among them
        data = draw(gen.big_tree(depths=(1, 2, 2, 3), m=(30, 70), nf=(4, 9), ns=(60, 150),
                                 nc=(1, 5), vals=draw(S(['int', 'real', 'real']))))
    else:
        data = draw(gen.big_tree(depths=(2, 2, 3, 3, 4), m=(30, 90), nf=(1, 5), ns=(3, 12),
                                 nc=(2, 5)))
    return {'big': data,
            'agg': draw(S([True, True, False])), 'by': draw(S(['exp', 'master'])),
            'limit': draw(S([None, None, None, 0, 3.5, 40.5, 500.5, 5000.5])),
            'pseed': draw(I(0, 10 ** 6)), 'used': draw(S([0, 0, 1, 2, 3]))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'])
    out.update({k: v for k, v in c.items() if k != 'big'})
    if max(len(k) for k in out['cands']) > 7:
        out['nolp'] = 2
    if c['by'] == 'exp':
        out['used'] = 0
    out['gone'] = [rnd.randrange(5) == 0 for _ in out['splits']]
    if c['big']['m'] > 120 or out['d'] == 4:
        out['nolp'] = max(1, out.get('nolp', 0))
    return out


def build(c):
    """The rows as the package preprocesses them."""
    t = sut.TreeSUT(c)
    if 0 < c.get('used', 0) < c['d'] and c['by'] == 'master':
        sut.use_before(t, c['used'])
    elif 0 < c.get('used', 0) < c['d']:
        exp.preprocess_nodes(t.nodes[:2 ** c['used'] - 1], c['used'])
    if c['by'] == 'master':
        rng = random.Random(c['pseed'])
        tree = t.tree_paths([rng.choice(k) for k in c['cands']])
        mp = DTreeMasterProblem(tree, t.leaves, t.nodes, t.splits)
        mp.generate_mp(t.X, t.y)
        return t, (mp.preprocess_rows(aggressive=True) if c['agg'] else mp.data_rows), 0
    splits = t.splits
    for s, g in zip(splits, c['gone']):
        s.left_rows, s.right_rows, s.removed = set(), set(), g
    splits = exp.add_rows_to_splits(splits, t.X)
    need([s.id for s in splits] == list(range(len(c['splits']))), 'splits reordered')
    for s, (f, th) in zip(splits, c['splits']):
        left = {r for r, x in enumerate(c['X']) if x[f] <= th}
        need(s.left_rows == left and s.right_rows == set(range(len(c['X']))) - left,
             'split x%d <= %g: rows %s left, %s right, expected %s left', f, th, s.left_rows,
             s.right_rows, left)
    if c['limit'] is None:
        return t, exp.preprocess(t.nodes, splits, t.X, t.y, t.depth, aggressive=c['agg'],
                                 time_limit=150), 0
    CLOCK.start(tick=1.0)
    rows = exp.preprocess(t.nodes, splits, t.X, t.y, t.depth, aggressive=c['agg'],
                          time_limit=c['limit'])
    n = CLOCK.readings
    CLOCK.stop()
    return t, rows, n


def facts(c, t, rows):
    need(len(rows) == len(c['X']), '%d rows for %d', len(rows), len(c['X']))
    for r, row in enumerate(rows):
        left = {i for i, s in enumerate(c['splits']) if ref.left_of(c['X'][r], s)}
        right = set(range(len(c['splits']))) - left
        need(set(row.left_splits) == left and set(row.right_splits) == right,
             'row %s answers left to %s and right to %s, expected %s and %s', c['X'][r],
             row.left_splits, row.right_splits, left, right)
        nodes, leaves = reach(c['d'], c['cands'], left)
        need(set(row.reachable_nodes) == nodes, 'row %s, splits %s, candidates %s: '
             'reachable nodes %s, expected %s', c['X'][r], c['splits'], c['cands'],
             row.reachable_nodes, nodes)
        need(set(row.reachable_leaves) == leaves, 'row %s, splits %s, candidates %s: '
             'reachable leaves %s, expected %s', c['X'][r], c['splits'], c['cands'],
             row.reachable_leaves, leaves)
        need(row.removed_from_master or not row.removed_from_sp,
             'row %d is removed from the subproblem but not from the master', r)
        if c['by'] == 'exp':
            need(row.target == c['y'][r], 'row %d has target %s, is %s', r, row.target,
                 c['y'][r])


def weights(c, t, rows):
    td = t.td
    todo = [(l, a) for l in range(2 ** c['d']) for a in td.paths(l)] \
        if td.n_paths() <= 500 else []
    rng = random.Random(c['pseed'])
    while len(todo) < 200 and td.n_paths() > 500:
        l = rng.randrange(2 ** c['d'])
        todo.append((l, {n: rng.choice(c['cands'][n]) for n, _ in ref.leaf_path(c['d'], l)}))
    for leaf, a in todo:
        m = td.rows(leaf, a)
        for k in td.classes:
            have = sum(row.weight for r, row in enumerate(rows)
                       if m >> r & 1 and not row.removed_from_sp and c['y'][r] == k)
            need(have == td.count(m, k), 'leaf %d, splits %s: the kept rows of class %s weigh '
                 '%s, %d rows follow the path', leaf, a, k, have, td.count(m, k))


def lps(c, t, rows, rec):
    td = t.td
    gone = {r for r, row in enumerate(rows) if row.removed_from_master}
    if not gone:
        return
    every = [(l, a) for l in range(2 ** c['d']) for a in td.paths(l)]
    rng = random.Random(c['pseed'])
    pools = [[(l, a, td.majority(td.rows(l, a))) for l, a in every]] if len(every) <= 120 \
        else []
    for _ in range(4):
        tree = [rng.choice(k) for k in c['cands']]
        pool = [(l, {n: tree[n] for n, _ in ref.leaf_path(c['d'], l)})
                for l in range(2 ** c['d'])]
        pool += rng.sample(every, rng.randint(0, min(len(every), 40)))
        pools.append([(l, a, td.count(td.rows(l, a), rng.choice(td.classes))
                       if rng.random() < 0.4 else td.majority(td.rows(l, a)))
                      for l, a in pool])
    for pool in pools:
        a = ref.path_lp(td, pool)
        b = ref.path_lp(td, pool, skip_rows=gone)
        need(ref.close(a, b), 'rows %s removed from the master: LP optimum %g instead of %g '
             'over %d paths', sorted(gone), b, a, len(pool))
        if len(gone) < td.n:
            rec.lab(not ref.close(a, ref.path_lp(td, pool, rows=False)), 'rows matter')


def implied(c, t, rows, rec):
    """The constraint of a row that was dropped follows from those that were kept,
    so the optimum is the same for whatever costs."""
    td = t.td
    wide = c.get('nolp') == 2
    left = [set(i for i, s in enumerate(c['splits']) if ref.left_of(x, s)) for x in c['X']]
    gone = [r for r, row in enumerate(rows) if row.removed_from_master]
    rng = random.Random(c['pseed'] + 1)
    for go in range(6 if wide else 1 if c['d'] == 1 else 2):
        cands = [list(dict.fromkeys(k)) for k in td.cands]
        if go or c['d'] > 2:
            cands = [rng.sample(k, min(len(k), 4 if c['d'] < 3 else 2)) for k in cands]
        if wide and gone:
            # candidates that tell a dropped row from the most similar kept one
            r = rng.choice(gone)
            near = min((len(left[r] ^ left[q]), rng.random(), q) for q in range(td.n)
                       if rows[q].removed_from_master is False) if len(gone) < td.n else None
            diff = left[r] ^ left[near[2]] if near else set()
            for n, k in enumerate(td.cands):
                d = [s for s in set(k) if s in diff]
                if d and rng.randrange(3):
                    cands[n] = list(dict.fromkeys(
                        rng.sample(d, min(len(d), 2)) + cands[n]))[:4 if c['d'] < 3 else 2]
        paths = []
        for leaf in range(2 ** c['d']):
            todo = [{}]
            for n, _ in ref.leaf_path(c['d'], leaf):
                todo = [{**a, n: s} for a in todo for s in cands[n]]
            paths += [(leaf, a) for a in todo]
        masks = [td.rows(leaf, a) for leaf, a in paths]
        pattern = [tuple(m >> r & 1 for m in masks) for r in range(td.n)]
        kept = {pattern[r] for r in range(td.n) if r not in set(gone)}
        todo = sorted({pattern[r]: r for r in gone if pattern[r] not in kept}.values())
        for r in rng.sample(todo, min(len(todo), 3)):
            most = ref.path_lp(td, [(leaf, a, k) for (leaf, a), k in zip(paths, pattern[r])],
                               skip_rows=gone)
            need(most is None or most < 1 + 1e-6, 'row %d removed from the master: without '
                 'it %g paths that it follows can be selected over the candidates %s', r,
                 most, cands)
            rec.label('dropped constraint implied')


def stale(c, rows):
    """Finding nodes-of-smaller-tree: the last nodes of the smaller tree still
    count as parents of leaves, with the ids of their child nodes."""
    last = range(2 ** (c['used'] - 1) - 1, 2 ** c['used'] - 1)
    for x, row in zip(c['X'], rows):
        nodes, leaves, todo = set(), set(), [0]
        while todo:
            n = todo.pop()
            nodes.add(n)
            kids = {2 * n + (1 if ref.left_of(x, c['splits'][s]) else 2)
                    for s in c['cands'][n]}
            if n in last:
                leaves |= kids
            else:
                todo += kids
        if set(row.reachable_nodes) != nodes or set(row.reachable_leaves) != leaves:
            return False
    return True


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t, rows, n = build(c)
    try:
        facts(c, t, rows)
    except Violation as e:
        if c['by'] == 'exp' and 0 < c.get('used', 0) < c['d'] and stale(c, rows):
            raise Known('nodes-of-smaller-tree', str(e))
        raise
    if c['by'] == 'exp':
        weights(c, t, rows)
    if 'nolp' not in c:
        lps(c, t, rows, rec)
    if c.get('nolp') != 1:
        implied(c, t, rows, rec)
    rec.lab(c['by'] == 'master' and 0 < c.get('used', 0) < c['d'], 'nodes of a smaller tree')
    rec.lab(max(len(k) for k in c['cands']) > 16, 'more than 16 candidates')
    merged = sum(1 for r in rows if r.removed_from_sp)
    gone = sum(1 for r in rows if r.removed_from_master)
    rec.lab(merged, 'rows merged')
    rec.lab(any(r.removed_from_master and not r.removed_from_sp and
                len(r.reachable_leaves) > 2 for r in rows), 'similar row of another class')
    if c['limit'] is not None and c['by'] == 'exp' and c['agg']:
        rec.label('time limit', 'limit struck early' if 0 < c['limit'] < n else 'no strike')
    rec.label('depth %d' % c['d'], c['by'] + (' aggressive' if c['agg'] else ' normal'))
    rec.nt(c['d'] > 1 and 0 < gone < len(rows) and (merged or not c['agg']))


@st.composite
def big(draw):
    c = draw(cases(lp=False))
    c['nolp'] = 1
    return c


CAMPAIGNS = [
    Campaign('lp', cases(), check, quick=1600),
    Campaign('facts', big(), check, quick=3000),
    Campaign('large', large_cases(), check, quick=240),
    Campaign('again', again(), check, quick=60, thorough=200),
]
