from hypothesis import strategies as st

import gen
import ref
from core import Campaign, need
from gen import I, S
from sut import BDRHeuristic, binary_X
import numpy as np

RULE = ('0/1 data (hidden rule with noise, random, repeated rows), non-negative '
        'duals, K. Non-trivial: some clause of 1..K features is improving and some '
        'is not.')
ASSUMPTIONS = ['Clauses whose reduced cost lies within 1e-5 of the documented '
               'threshold 0 / -1e-6 are free.']


@st.composite
def cases(draw):
    c = draw(gen.rule_data(max_n=7, max_m=14))
    npos = sum(c['y'])
    c['K'] = draw(I(1, c['n'] + (1 if gen.chance(draw, 1, 6) else 0)))
    hi = draw(S([1, 3, 6, 12]))
    free = draw(S([0, 0, 1]))
    if free:
        f = st.floats(0, hi, allow_nan=False, allow_subnormal=False)
        c['lam'] = draw(st.floats(0, 2, allow_subnormal=False))
        c['mu'] = [draw(f) for _ in range(npos)]
    else:
        c['lam'] = gen.eighth(draw, draw(S([1, 1, 2, 5])))
        c['mu'] = [gen.eighth(draw, hi) for _ in range(npos)]
    c['dtype'] = draw(S(['int64', 'int8', 'float64', 'bool']))
    c['calls'] = draw(I(1, 2))
    if gen.chance(draw, 1, 4):
        # the same object gets other data and duals: the same rows in another
        # order, other labels, some other bits, or unrelated rows of the same shape
        rows, y, m = list(c['rows']), list(c['y']), len(c['rows'])
        kind = draw(S(['order', 'labels', 'bits', 'rows', 'duals', 'width']))
        n = c['n']
        if kind == 'order':
            rows = list(draw(st.permutations(rows)))
        elif kind == 'labels':
            y = list(draw(st.permutations(y)))
        elif kind == 'bits':
            for _ in range(draw(I(1, 3))):
                rows[draw(I(0, m - 1))] ^= 1 << draw(I(0, n - 1))
        elif kind == 'rows':
            rows = gen.bitrows(draw, n, m, draw(S([0, 1, 2, -1])))
        elif kind == 'width':
            n = draw(I(1, 7))
            rows = gen.bitrows(draw, n, m, 1)
        mu = list(c['mu'])
        if kind == 'duals' or draw(gen.B):
            mu = gen.vary(draw, mu)
        c['other'] = {'n': n, 'rows': rows, 'y': y, 'lam': c['lam'], 'mu': mu,
                      'kind': kind, 'same_array': draw(gen.B)}
    return c


def check(c, rec):
    X = binary_X(c['rows'], c['n'], np.dtype(c['dtype']))
    y = np.array(c['y'])
    h = BDRHeuristic(K=c['K'])
    compare(c, rec, h, X, y)
    if 'other' in c:
        o = dict(c, **c['other'])
        X2 = binary_X(o['rows'], o['n'], np.dtype(c['dtype']))
        y2 = np.array(o['y'])
        if o['same_array'] and X2.shape == X.shape:
            # the arrays are rewritten in place
            X[...], y[...] = X2, y2
            X2, y2 = X, y
        compare(o, rec, h, X2, y2)
        rec.label('other data: ' + o['kind'])


def compare(c, rec, h, X, y):
    must, may = set(), set()
    for cl in ref.all_clauses(c['n'], c['K'], empty=False):
        rc = ref.reduced_cost(c['rows'], c['y'], cl, c['lam'], c['mu'])
        if rc < -1e-5:
            must.add(tuple(cl))
        if rc < 1e-5:
            may.add(tuple(cl))
    for _ in range(c['calls']):
        got = h.generate_columns(X, y, (c['lam'], list(c['mu'])), '')
        need(isinstance(got, (list, tuple)), 'no list returned: %r', got)
        keys = [tuple(sorted(int(j) for j in cl)) for cl in got]
        for cl in got:
            need(len(set(cl)) == len(cl), 'feature repeated in %s', list(cl))
        need(len(set(keys)) == len(keys), 'a clause is returned twice: %s', keys)
        miss = must - set(keys)
        need(not miss, 'improving clauses missing: %s of %s', sorted(miss), sorted(must))
        extra = set(keys) - may
        need(not extra, 'not improving, too long or empty: %s', sorted(extra))
    rec.lab(must, 'some improving')
    rec.lab(len(must) > 3, 'more than 3')
    rec.lab(any(len(k) > 1 for k in must), 'improving of size > 1')
    total = len(ref.all_clauses(c['n'], c['K'], empty=False))
    rec.nt(must and len(may) < total)


@st.composite
def big_cases(draw):
    K = draw(S([1, 1, 2, 2, 3]))
    return {'big': draw(gen.big_rule(n=(8, [0, 40, 20, 11][K]), m=(20, 90))), 'K': K,
            'hi': draw(S([1, 2, 6])), 'lam': draw(S([0.0, 0.5, 3.0])),
            'dtype': draw(S(['int64', 'float64', 'bool'])), 'calls': 1}


def big_check(c, rec):
    d, rnd = gen.expand_rule(c['big'])
    check(dict(c, mu=[rnd.randrange(8 * c['hi']) / 8.0 * rnd.randrange(2)
                      for t in d['y'] if t], **d), rec)


CAMPAIGNS = [
    Campaign('exact-set', cases(), check, quick=12000),
    Campaign('large', big_cases(), big_check, quick=320),
]
