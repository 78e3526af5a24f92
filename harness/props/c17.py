import random

from hypothesis import strategies as st
from sklearn.exceptions import NotFittedError
import numpy as np
import pandas as pd
import scipy.sparse as sp

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from sut import DTreeClassifier

RULE = ('Fitted tree classifiers (labels of any kind, 0-2 iterations) and fitted ones '
        'whose selected paths are replaced by a generated complete tree with any leaf '
        'classes; query values on, next to and beyond thresholds; containers, '
        'permutations and subsets. Non-trivial: depth >= 2, at least two classes '
        'predicted, a value equal to a threshold, a row not in the training data.')
ASSUMPTIONS = ['The selected tree is read from master_problem.selected_paths. Query '
               'values are exact in the container type used.']

LABELS = [[0, 1, 2], [1, 2, 3], [-5, 0, 7], ['a', 'b', 'c'], ['z', 'Z', 'aa'],
          [10, 200, 3000], [False, True], [2 ** 40, 1, -1], ['1', '10', '2']]
EXACT = ['list', 'tuple', 'float64', 'frame', 'csr', 'csc', 'coo', 'lil', 'dok', 'bsr',
         'csr_array', 'fortran', 'strided', 'object', 'indexed']
SHORT = ['float32', 'int64', 'intframe', 'int8', 'float16', 'mixframe']


@st.composite
def cases(draw, inject=False):
    labels = draw(S(LABELS))
    c = draw(gen.tree_data(max_rows=9, min_rows=3, depths=(1, 2, 2, 3, 3, 4),
                           max_splits=6, max_k=len(labels)))
    c['labels'] = labels
    c['tree'] = gen.tree_assign(draw, c['cands'])
    c['iters'] = draw(S([1, 1, 2]))
    c['rseed'] = draw(I(0, 10 ** 6))
    nf = len(c['X'][0])
    vals = sorted({t for _, t in c['splits']} | {v for x in c['X'] for v in x}
                  | {-1000.0, 1000.0})
    near = vals + [v + 0.0625 for v in vals] + [v - 0.0625 for v in vals]
    short = all(v * 16 == int(v * 16) and abs(v) <= 1000 for v in vals)
    box = draw(S(EXACT + SHORT if short else EXACT))
    if box in EXACT:
        # the closest numbers, and ones within single precision
        near += [float(np.nextafter(v, s)) for v in vals for s in (-1e9, 1e9)]
        near += [v + s * max(abs(v), 1e-3) * 1e-9 for v in vals for s in (-1, 1)]
    if box in ('int64', 'intframe', 'int8', 'mixframe'):
        near = [-100.0, -3.0, -1.0, 0.0, 1.0, 2.0, 3.0, 5.0, 9.0, 100.0]
    c['box'] = box
    if box in EXACT and gen.chance(draw, 1, 4):
        # whole numbers only, of any size
        near = [float(round(v)) for v in vals] + [0.0, 1.0, -1.0, 2.0 ** 31, -2.0 ** 31 - 1,
                2.0 ** 53 + 2, 2.0 ** 63, -2.0 ** 64, 1e19, -1e20, 1e30, -1e300]
    c['query'] = [[draw(S(near)) for _ in range(nf)] for _ in range(draw(I(1, 12)))]
    k = len(c['query'])
    c['perm'] = draw(st.permutations(range(k)))
    c['sub'] = draw(I(1, k))
    m = len(c['X'])
    c['mix'] = [[draw(I(0, m - 1)), draw(I(-k, m - 1))] for _ in range(draw(I(1, 3)))]
    # the rows over and over again, for large inputs
    c['many'] = draw(S([0] * 7 + [31, 100, 257, 600, 1100]))
    if inject:
        c['inj'] = gen.tree_assign(draw, c['cands'])
        c['targets'] = [draw(I(0, len(set(c['y'])) - 1)) for _ in range(2 ** c['d'])]
        c['order'] = draw(st.permutations(range(2 ** c['d'])))
        c['norder'] = draw(st.permutations(range(c['d'])))
    return c


@st.composite
def crowd_cases(draw):
    """Hundreds of classes, leaf classes anywhere among them."""
    k = draw(S([129, 140, 40]))
    d = draw(S([1, 2, 2, 3]))
    splits = [[0, float(t)] for t in draw(st.permutations(range(1, 40)))[:draw(I(1, 8))]]
    c = {'d': d, 'X': [[float(i % 41)] for i in range(k)], 'y': list(range(k)),
         'splits': splits, 'cands': [list(range(len(splits)))] * (2 ** d - 1),
         'labels': draw(S(['int', 'str', 'neg'])), 'iters': 0, 'rseed': 1,
         'box': draw(S(['list', 'float64', 'frame', 'csr', 'fortran']))}
    c['tree'] = [draw(I(0, len(splits) - 1)) for _ in c['cands']]
    c['inj'] = [draw(I(0, len(splits) - 1)) for _ in c['cands']]
    c['targets'] = [draw(I(0, k - 1)) for _ in range(2 ** d)]
    c['order'] = draw(st.permutations(range(2 ** d)))
    c['norder'] = draw(st.permutations(range(d)))
    c['query'] = [[draw(I(0, 82)) / 2.0] for _ in range(draw(I(1, 12)))] + \
        [[draw(S(splits))[1]]]
    c['perm'] = draw(st.permutations(range(len(c['query']))))
    c['sub'] = draw(I(1, len(c['query'])))
    return c


@st.composite
def deep_cases(draw):
    return {'seed': draw(I(0, 10 ** 9)), 'd': draw(S([4, 5, 5, 6, 7])),
            'nf': draw(S([1, 3, 9, 17, 40, 70, 140])), 'ns': draw(I(2, 70)),
            'near': draw(I(0, 3)), 'box': draw(S(EXACT))}


def expand(c):
    """Deep trees over many features; queries that walk to the last node and are
    close to its threshold."""
    rnd = random.Random(c['seed'])
    d, nf = c['d'], c['nf']
    splits = []
    while len(splits) < c['ns']:
        s = [rnd.randrange(nf), rnd.randrange(-40, 40) / 4.0]
        if s not in splits:
            splits.append(s)
    nn = 2 ** d - 1

    def row():
        return [rnd.randrange(-42, 42) / 4.0 for _ in range(nf)]
    inj = [rnd.randrange(c['ns']) for _ in range(nn)]
    query = []
    for _ in range(30):
        x = row()
        for n in rnd.sample(range(nn), c['near']):
            f, t = splits[inj[n]]
            x[f] = rnd.choice([t, float(np.nextafter(t, 99)), float(np.nextafter(t, -99))])
        query.append(x)
    k = rnd.randint(2, 6)
    tree = [rnd.randrange(c['ns']) for _ in range(nn)]
    X = [row() for _ in range(12)]
    return dict(c, X=X, y=[i % k for i in range(12)], splits=splits, tree=tree,
                cands=[[s] for s in tree], labels='int', iters=0, rseed=1, inj=inj,
                targets=[rnd.randrange(k) for _ in range(2 ** d)],
                order=rnd.sample(range(2 ** d), 2 ** d), norder=rnd.sample(range(d), d),
                query=query, perm=rnd.sample(range(30), 30), sub=rnd.randint(1, 30))


def alphabet(c):
    k = len(set(c['y']))
    if isinstance(c['labels'], str):
        return {'int': [7 * i for i in range(k)], 'str': ['c%03d' % i for i in range(k)],
                'neg': [i - 200 for i in range(k)]}[c['labels']]
    return sorted(c['labels'][:k])


def box(kind, rows):
    A = np.array(rows, dtype=float)
    if kind == 'list':
        return [list(r) for r in rows]
    if kind == 'tuple':
        return tuple(tuple(r) for r in rows)
    if kind == 'frame':
        # names in no particular order
        return pd.DataFrame(A, columns=['f%d' % (j * 7 % 5) for j in range(A.shape[1], 0, -1)])
    if kind == 'intframe':
        return pd.DataFrame(A.astype(int))
    if kind in ('csr', 'csc', 'coo'):
        return getattr(sp, kind + '_matrix')(A)
    if kind in ('lil', 'dok', 'bsr'):
        return getattr(sp, kind + '_matrix')(A)
    if kind == 'csr_array':
        return sp.csr_array(A)
    if kind == 'object':
        return A.astype(object)
    if kind == 'strided':
        B = np.full((2 * A.shape[0], 3 * A.shape[1]), 777.0)
        B[::2, 1::3] = A
        return B[::2, 1::3]
    if kind == 'indexed':
        return pd.DataFrame(A, index=['r%d' % (7 * i % 5) for i in range(len(A))])
    if kind == 'mixframe':
        return pd.DataFrame({'c%d' % j: A[:, j].astype([float, int, 'int16'][j % 3])
                             for j in range(A.shape[1])})
    if kind == 'fortran':
        return np.asfortranarray(A)
    return A.astype(kind)


def plain(v):
    return v.item() if hasattr(v, 'item') else v


def check(c, rec):
    if 'near' in c:
        c = expand(c)
    lab = alphabet(c)
    t = sut.TreeSUT(c)
    y = np.array([lab[v] for v in c['y']])
    init = t.tree_paths(c['tree'])
    clf = DTreeClassifier(init, t.leaves, t.nodes, t.splits, tree_depth=t.depth,
                          targets=list(t.td.classes), max_iterations=c['iters'])
    try:
        clf.predict(box('float64', c['query']))
    except NotFittedError:
        pass
    else:
        need(False, 'predict before fit did not raise NotFittedError')
    random.seed(c['rseed'])
    clf.fit(t.X, y)
    if 'inj' in c:
        ps = [sut.make_path(t.depth, l, {n: c['inj'][n] for n, _ in
                                         ref.leaf_path(t.depth, l)},
                            c['targets'][l], 0, c['norder']) for l in range(2 ** t.depth)]
        need(hasattr(clf.master_problem, 'selected_paths'), 'selected_paths missing')
        clf.master_problem.selected_paths = [ps[i] for i in c['order']]
        rec.label('injected tree')
    assign, target = {}, {}
    for p in clf.master_problem.selected_paths:
        assign.update(sut.assign_of(p))
        target[p.leaf_id] = p.target

    def want(rows):
        return [lab[target[ref.walk(x, t.depth, assign, c['splits'])]] for x in rows]

    def ask(kind, rows):
        got = clf.predict(box(kind, rows))
        need(np.shape(got) == (len(rows),), 'shape %s for %d rows', np.shape(got), len(rows))
        return [plain(v) for v in got]
    tree = 'tree %s with leaf classes %s' % (
        sorted(assign.items()), [lab[target[l]] for l in sorted(target)])
    q = c['query']
    exp = want(q)
    got = ask(c['box'], q)
    need(got == exp, '%s, splits %s, rows %s in a %s: predicted %s, expected %s', tree,
         c['splits'], q, c['box'], got, exp)
    q2 = [q[i] for i in c['perm']][:c['sub']]
    got = ask(c['box'], q2)
    need(got == want(q2), '%s, splits %s, permuted subset %s: predicted %s, expected %s',
         tree, c['splits'], q2, got, want(q2))
    one = ask('float64', q[:1])
    need(one == exp[:1], '%s, single row %s: predicted %s, expected %s', tree, q[0], one,
         exp[:1])
    got = ask('float64', c['X'])
    need(got == want(c['X']), '%s, training rows: predicted %s, expected %s', tree, got,
         want(c['X']))
    # the training rows in another order, some of them replaced
    mix = [list(x) for x in c['X']]
    for i, j in c.get('mix', []):
        if j < 0:
            mix[i] = q[-1 - j]
        else:
            mix[i], mix[j] = mix[j], mix[i]
    got = ask('float64', mix)
    need(got == want(mix), '%s, rows like the training rows %s: predicted %s, expected %s',
         tree, mix, got, want(mix))
    if c.get('many'):
        k = len(c['perm'])
        big = [q[c['perm'][i * (i // k + 1) % k]] for i in range(c['many'])]
        w = dict(zip(map(tuple, q), exp))
        got = ask(c['box'], big)
        bad = [i for i, x in enumerate(big) if got[i] != w[tuple(x)]]
        need(not bad, '%s, splits %s, %d rows: row %s %s predicted %s, expected %s', tree,
             c['splits'], len(big), bad and bad[0], bad and big[bad[0]],
             bad and got[bad[0]], bad and w[tuple(big[bad[0]])])
        rec.label('%d rows' % c['many'])
    ties = any(x[c['splits'][s][0]] == c['splits'][s][1] for x in q for s in assign.values())
    trained = {ref.walk(x, t.depth, assign, c['splits']) for x in c['X']}
    rec.lab(any(ref.walk(x, t.depth, assign, c['splits']) not in trained for x in q),
            'leaf without training rows')
    rec.lab(ties, 'value on a threshold')
    rec.label('box ' + c['box'], 'depth %d' % t.depth)
    rec.nt(t.depth > 1 and len(set(exp)) > 1 and ties and any(x not in c['X'] for x in q))


CAMPAIGNS = [
    Campaign('learned', cases(), check, quick=1400),
    Campaign('injected', cases(inject=True), check, quick=1400),
    Campaign('deep', deep_cases(), check, quick=120),
    Campaign('crowd', crowd_cases(), check, quick=32),
]
