"""Hypothesis strategies producing plain JSON cases."""
import random

from hypothesis import strategies as st

import ref

I = st.integers
S = st.sampled_from
B = st.booleans()


def chance(draw, k, n):
    """True with probability about k/n, shrinks to False."""
    return draw(I(0, n - 1)) >= n - k


def bitrows(draw, n, m, dens):
    full = (1 << n) - 1
    r = I(0, full)
    out = []
    for _ in range(m):
        v = draw(r)
        if dens == 1:
            v |= draw(r)
        elif dens == 2:
            v |= draw(r) | draw(r)
        elif dens == -1:
            v &= draw(r)
        out.append(v)
    return out


def clause_of(draw, n, maxlen=3):
    k = draw(I(1, min(maxlen, n)))
    c = draw(st.lists(I(0, n - 1), min_size=k, max_size=k, unique=True))
    return sorted(c)


@st.composite
def rule_data(draw, max_n=7, max_m=16, min_m=2, both=True):
    """{'n', 'rows', 'y'}: 0/1 data with both classes."""
    n = draw(I(1, max_n))
    m = draw(I(min_m, max_m))
    dens = draw(S([0, 1, 1, 2, -1]))
    rows = bitrows(draw, n, m, dens)
    kind = draw(S(['balanced', 'balanced', 'hidden', 'random', 'dup']))
    if kind == 'dup':
        # few distinct rows, many repetitions (also contradicting labels)
        k = draw(I(1, min(4, m)))
        rows = [rows[draw(I(0, k - 1))] for _ in range(m)]
    if kind == 'hidden':
        rule = [clause_of(draw, n) for _ in range(draw(I(1, 3)))]
        y = []
        for r in rows:
            t = 1 if any(ref.covers(r, c) for c in rule) else 0
            if chance(draw, 1, 8):
                t = 1 - t
            y.append(t)
    elif kind == 'balanced':
        # positives are made to satisfy a hidden clause, negatives to miss all
        rule = [clause_of(draw, n) for _ in range(draw(I(1, 4)))]
        y = []
        for i, r in enumerate(rows):
            t = draw(I(0, 1))
            if t:
                r |= ref.cmask(draw(S(rule)))
            else:
                for c in rule:
                    if ref.covers(r, c):
                        r &= ~(1 << draw(S(c)))
            rows[i] = r
            y.append(t)
    else:
        y = [draw(I(0, 1)) for _ in range(m)]
    if both and len(set(y)) < 2:
        i = draw(I(0, m - 1))
        y[i] = 1 - y[i]
    return {'n': n, 'rows': rows, 'y': y}


PVALS = [1, 1, 1, 2, 0.5, 3, 0.25, 5, 1.5, 0.125, 10, 0.3, 1 / 3, 30]
CVALS = [1, 2, 3, 4, 5, 6, 7, 8, 10]


def eighth(draw, hi, zero=3):
    """A multiple of 1/8 in [0, hi], often 0."""
    if draw(I(0, 9)) < zero:
        return 0.0
    return draw(I(0, int(hi * 8))) / 8.0


def vary(draw, vec):
    """A vector related to an earlier one: permuted, rotated, one or two entries
    exchanged, changed or dropped to 0, everything scaled, or unchanged."""
    v = list(vec)
    if not v:
        return v
    kind = draw(S(['swap', 'swap', 'perm', 'rotate', 'zero', 'move', 'scale', 'same']))
    if kind == 'perm':
        v = [v[i] for i in draw(st.permutations(range(len(v))))]
    elif kind == 'rotate':
        v = v[1:] + v[:1]
    elif kind == 'scale':
        v = [x * 0.5 for x in v]
    elif kind != 'same':
        i, j = draw(I(0, len(v) - 1)), draw(I(0, len(v) - 1))
        if kind == 'swap':
            v[i], v[j] = v[j], v[i]
        elif kind == 'zero':
            v[i] = 0.0
        else:
            # the sum stays
            h = v[i] / 2
            v[i] -= h
            v[j] += h
    return v


def grid_split(draw, nf, vals):
    f = draw(I(0, nf - 1))
    return [f, draw(S(vals))]


@st.composite
def tree_data(draw, depths=(1, 2, 2, 2, 3), max_rows=14, max_splits=6,
              max_nf=3, max_paths=400, min_rows=2, max_k=3,
              wide_cands=False, min_splits=1, scale=True, min_nf=1, min_cands=1):
    """{'d','X','y','splits','cands'}"""
    d = draw(S(list(depths)))
    nf = draw(I(min_nf, max_nf))
    k = draw(I(2, max_k))
    m = draw(I(max(min_rows, k), max(max_rows, k)))
    wide = draw(S([0, 0, 0, 1]))
    if wide:
        vals = [-3.5, -1.0, -0.25, 0.0, 0.25, 1.0, 2.0, 7.5]
        thr = [-3.5, -2.0, -0.25, 0.0, 0.125, 0.5, 1.0, 5.0, 9.0]
    else:
        vals = [0.0, 1.0, 2.0, 3.0]
        thr = [0.5, 1.5, 2.5, 0.0, 1.0, 2.0]
    X = [[draw(S(vals)) for _ in range(nf)] for _ in range(m)]
    if draw(S([0, 0, 1])):
        # repeated rows
        for _ in range(draw(I(1, m))):
            X[draw(I(0, m - 1))] = list(X[draw(I(0, m - 1))])
    allsp = [[f, t] for f in range(nf) for t in thr]
    ns = draw(I(min(min_splits, len(allsp)), min(max_splits, len(allsp))))
    splits = draw(st.lists(S(allsp), min_size=ns, max_size=ns,
                           unique_by=tuple))
    nn = 2 ** d - 1
    cands = []
    cap = max_splits if d <= 2 else 3
    for _ in range(nn):
        c = draw(st.lists(I(0, ns - 1), min_size=min(max(min_cands, 2 if wide_cands else 1), ns, cap),
                          max_size=min(cap, ns),
                          unique=True))
        cands.append(c)
    # rows labelled by a hidden tree with noise, or at random
    if draw(S([0, 1])):
        assign = [draw(S(c)) for c in cands]
        lab = [draw(I(0, k - 1)) for _ in range(2 ** d)]
        y = []
        for x in X:
            t = lab[ref.walk(x, d, assign, splits)]
            if chance(draw, 1, 6):
                t = draw(I(0, k - 1))
            y.append(t)
    else:
        y = [draw(I(0, k - 1)) for _ in range(m)]
    for c in range(k):
        if c not in y:
            # every class occurs
            for i in range(m):
                if y.count(y[i]) > 1:
                    y[i] = c
                    break
    if scale:
        # values and thresholds that are no binary fractions, tiny or large
        a, b = draw(S([(1, 0)] * 5 + [(0.1, 0), (1 / 3, 0.7), (1e-6, 0), (1e6, 0.1),
                                      (-1, 0)]))
        if (a, b) != (1, 0):
            X = [[v * a + b for v in x] for x in X]
            splits = [[f, t * a + b] for f, t in splits]
    return {'d': d, 'X': X, 'y': y, 'splits': splits, 'cands': cands}


def tree_assign(draw, cands):
    return [draw(S(c)) for c in cands]


@st.composite
def tree_with_paths(draw, trees=3, **kw):
    """Adds 'trees': complete trees whose paths initialise the master."""
    c = draw(tree_data(**kw))
    c['trees'] = [tree_assign(draw, c['cands'])
                  for _ in range(draw(I(1, trees)))]
    return c


# ---------------------------------------------------------- large inputs ----
# Large cases are stored as a seed and sizes, and expanded by the check.
def some_rows(draw, m, top=700):
    """A number of rows, sometimes beyond what a byte can count."""
    return draw(I(257, top)) if chance(draw, 1, 10) else draw(I(*m))


@st.composite
def big_rule(draw, n=(8, 20), m=(30, 120), many_n=20):
    b = {'seed': draw(I(0, 10 ** 9)), 'n': draw(I(*n)), 'm': some_rows(draw, m),
            'style': draw(S(['hidden', 'hidden', 'random', 'few'])),
            'dens': draw(S([0.3, 0.5, 0.7, 0.9])), 'noise': draw(S([0, 5, 20]))}
    if b['m'] > 200:
        b['n'] = min(b['n'], many_n)
    return b


def expand_rule(b):
    """{'n', 'rows', 'y'} and the generator for further choices."""
    rnd = random.Random(b['seed'])
    n, m = b['n'], b['m']
    rows = [sum((rnd.random() < b['dens']) << j for j in range(n)) for _ in range(m)]
    if b['style'] == 'few':
        rows = [rows[rnd.randrange(1 + m // 6)] for _ in range(m)]
    if b['style'] == 'random':
        y = [rnd.randrange(2) for _ in range(m)]
    else:
        rule = [rnd.sample(range(n), rnd.randint(1, min(3, n))) for _ in range(rnd.randint(1, 5))]
        y = [int(any(ref.covers(r, c) for c in rule)) for r in rows]
        y = [1 - t if rnd.randrange(100) < b['noise'] else t for t in y]
    y[0], y[1] = 0, 1
    return {'n': n, 'rows': rows, 'y': y}, rnd


@st.composite
def big_tree(draw, depths=(2, 2, 3), m=(25, 70), nf=(1, 6), ns=(2, 8), k=(2, 4), nc=(2, 5),
             top=700, **kw):
    """Seed and sizes of a large tree case."""
    return dict({'seed': draw(I(0, 10 ** 9)), 'd': draw(S(list(depths))),
                 'm': some_rows(draw, m, top),
                 'nf': draw(I(*nf)), 'ns': draw(I(*ns)), 'k': draw(I(*k)),
                 'nc': draw(I(*nc)), 'vals': draw(S(['int', 'int', 'real', 'binary', 'few'])),
                 'noise': draw(S([0, 5, 20, 100, -3]))}, **kw)


def expand_tree(b, trees=0):
    """The plain case (as tree_data, with 'trees') and the generator."""
    rnd = random.Random(b['seed'])
    d, m, nf, k = b['d'], b['m'], b['nf'], b['k']
    if b['vals'] == 'binary':
        draw = lambda: float(rnd.randrange(2))
    elif b['vals'] == 'int':
        draw = lambda: float(rnd.randrange(12))
    else:
        draw = lambda: round(rnd.gauss(0, 3), rnd.choice([1, 2, 6]))
    X = [[draw() for _ in range(nf)] for _ in range(m)]
    if b['vals'] == 'few':
        X = [list(X[rnd.randrange(1 + m // 5)]) for _ in range(m)]
    splits = []
    for _ in range(b['ns']):
        f = rnd.randrange(nf)
        if b['vals'] == 'binary':
            t = rnd.choice([0.5, 0.5, 0.0])
        else:
            t = X[rnd.randrange(m)][f] + rnd.choice([0, 0, 0.05, -0.3])
        if [f, t] not in splits:
            splits.append([f, t])
    ns = len(splits)
    cands = [rnd.sample(range(ns), min(ns, b['nc'])) for _ in range(2 ** d - 1)]
    assign = [rnd.choice(c) for c in cands]
    lab = [rnd.randrange(k) for _ in range(2 ** d)]
    y = [lab[ref.walk(x, d, assign, splits)] if rnd.randrange(100) >= b['noise']
         else rnd.randrange(k) for x in X]
    if b['noise'] < 0:
        # nearly all rows have the same class
        y = [0 if rnd.randrange(100) >= -b['noise'] else rnd.randrange(k) for x in X]
    for c in range(k):
        if c not in y:
            for i in range(m):
                if y.count(y[i]) > 1:
                    y[i] = c
                    break
    out = {'d': d, 'X': X, 'y': y, 'splits': splits, 'cands': cands}
    if trees:
        out['trees'] = [[rnd.choice(c) for c in cands] for _ in range(trees)]
    return out, rnd
