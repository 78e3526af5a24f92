import random

from hypothesis import strategies as st
from sklearn.exceptions import NotFittedError
import numpy as np
import pandas as pd
import scipy.sparse as sp

import gen
import ref
from core import Campaign, need
from gen import I, S
from props.c07 import rule_of
from sut import (BooleanDecisionRuleClassifier,
                 BooleanDecisionRuleClassifierWithHeuristic, binary_X)

RULE = ('Fitted classifiers (and fitted ones whose learned rule is replaced by a '
        'generated rule, with empty clause / empty rule), all kinds of labels, query '
        'rows drawn from the whole 0/1 cube, containers and permutations; wide data of '
        'up to 80 features with queries close to the clauses. '
        'Non-trivial: the queries contain both answers, a row not in the training '
        'data and a non-default container.')
ASSUMPTIONS = ['The learned rule is read from master_problem.explanation.']

LABELS = [[0, 1], [1, 2], [-1, 1], [10, 3], ['no', 'yes'], ['b', 'a'], [False, True],
          [7, -2], ['x', 'X'], [0.0, 1.0], [2**40, 5]]
BOXES = ['list', 'int64', 'int8', 'uint8', 'float32', 'float64', 'bool', 'frame',
         'csr', 'csc', 'coo', 'fortran', 'tuple']


@st.composite
def cases(draw, inject=False):
    c = draw(gen.rule_data(max_n=6, max_m=12))
    n = c['n']
    c['C'] = draw(S([2, 3, 4, 6, 8, 10]))
    c['p'] = draw(S([1, 2, 0.5]))
    c['heur'] = draw(gen.B)
    c['labels'] = draw(S(LABELS))
    c['box'] = draw(S(BOXES))
    c['query'] = gen.bitrows(draw, n, draw(I(1, 10)), draw(S([0, 1, 2])))
    k = len(c['query'])
    c['perm'] = draw(st.permutations(range(k)))
    c['sub'] = draw(I(1, k))
    m = len(c['rows'])
    c['mix'] = [[draw(I(0, m - 1)), draw(I(-k, m - 1))] for _ in range(draw(I(1, 3)))]
    if draw(I(0, 3)) == 0:
        # trained again afterwards
        c['y2'] = [draw(I(0, 1)) for _ in c['rows']]
        c['y2'][0] = 1 - c['y2'][-1]
    if inject:
        c['rule'] = [[] if gen.chance(draw, 1, 8) else gen.clause_of(draw, n)
                     for _ in range(draw(I(0, 4)))]
    return c


@st.composite
def wide_cases(draw):
    """Many features and many, related query rows."""
    n = draw(I(7, 80))
    c = {'n': n}
    rule = []
    for _ in range(draw(S([1, 2, 3, 4, 4, 9, 20, 40]))):
        k = draw(I(1, min(n, draw(S([2, 4, 8, 12])))))
        rule.append(sorted(draw(st.lists(I(0, n - 1), min_size=k, max_size=k,
                                         unique=True))))
    base = gen.bitrows(draw, n, draw(I(1, 4)), draw(S([-1, 0, 1])))

    def near():
        r = draw(S(base + [0]))
        k = draw(S(rule))
        kind = draw(I(0, 5))
        if kind:
            r |= ref.cmask(k)
        if kind >= 3:
            # one literal of the clause missing, perhaps another one instead
            b = draw(S(k))
            r &= ~(1 << b)
            if kind >= 4:
                sh = draw(S([1, 2, 4, 8, 16, 32, 64]))
                r |= 1 << ((b + sh) % n if kind == 4 else (b - sh) % n)
        return r

    m = draw(I(2, 8))
    c['rows'] = [near() for _ in range(m)]
    c['y'] = [draw(I(0, 1)) for _ in range(m)]
    if len(set(c['y'])) < 2:
        c['y'][0] = 1 - c['y'][0]
    c['C'] = draw(S([2, 4, 10]))
    c['p'] = 1
    c['heur'] = draw(gen.B)
    c['labels'] = draw(S(LABELS))
    c['box'] = draw(S(BOXES))
    c['query'] = [near() for _ in range(draw(I(2, 40)))]
    k = len(c['query'])
    c['perm'] = draw(st.permutations(range(k)))
    c['sub'] = draw(I(1, k))
    if draw(I(0, 3)):
        c['rule'] = rule
    if gen.chance(draw, 1, 6):
        # the rows over and over again, for large inputs
        c['many'] = draw(S([60, 127, 129, 257, 300, 513, 1025, 1100]))
    return c


@st.composite
def long_cases(draw):
    """Clauses of hundreds of features, rows that lack a given number of them."""
    return {'seed': draw(I(0, 10 ** 9)), 'n': draw(I(130, 620)), 'heur': draw(gen.B),
            'labels': draw(S(LABELS)), 'box': draw(S(BOXES)),
            'lack': draw(st.lists(S([0, 1, 2, 63, 64, 127, 128, 129, 255, 256, 257, 511, 512]),
                                  min_size=2, max_size=8)),
            'clauses': draw(I(1, 3))}


def expand(c):
    rnd = random.Random(c['seed'])
    n = c['n']
    rule = [sorted(rnd.sample(range(n), rnd.randint(n * 2 // 3, n)))
            for _ in range(c['clauses'])]
    if n > 256 and rnd.randrange(2):
        rule[0] = sorted(rnd.sample(range(n), rnd.choice([256, 257, min(n, 512)])))
    q = []
    for k in c['lack']:
        r = (1 << n) - 1
        for cl in rule if rnd.randrange(3) else rule[:1]:
            for j in rnd.sample(cl, min(k, len(cl))):
                r &= ~(1 << j)
        q.append(r)
    perm = list(range(len(q)))
    rnd.shuffle(perm)
    return dict(c, rows=[q[0], 0, (1 << n) - 1], y=[1, 0, 1], C=4, p=1, rule=rule, query=q,
                perm=perm, sub=rnd.randint(1, len(q)))


def box(kind, rows, n):
    M = ref.matrix(rows, n)
    if kind == 'list':
        return M
    if kind == 'tuple':
        return tuple(tuple(r) for r in M)
    A = np.array(M).reshape(len(rows), n)
    if kind == 'frame':
        return pd.DataFrame(A, columns=['f%d' % j for j in range(n)])
    if kind in ('csr', 'csc', 'coo'):
        return getattr(sp, kind + '_matrix')(A)
    if kind == 'fortran':
        return np.asfortranarray(A)
    return A.astype(kind)


def m_ok(y):
    return len(set(y)) == 2


def check(c, rec):
    if 'lack' in c:
        c = expand(c)
    n = c['n']
    lab = sorted(c['labels'])
    X = binary_X(c['rows'], n)
    y = np.array([lab[t] for t in c['y']])
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    clf = cls(C=c['C'], p=c['p'])
    try:
        clf.predict(box('int64', c['query'], n))
    except NotFittedError:
        pass
    else:
        need(False, 'predict before fit did not raise NotFittedError')
    clf.fit(X, y)
    if 'rule' in c:
        rule_of(clf.master_problem)
        clf.master_problem.explanation = [list(k) for k in c['rule']]
        rec.label('injected rule')
    rule = rule_of(clf.master_problem)

    def want(rows):
        return [lab[1] if any(ref.covers(r, k) for k in rule) else lab[0]
                for r in rows]

    def ask(kind, rows):
        got = clf.predict(box(kind, rows, n))
        need(np.shape(got) == (len(rows),), 'shape %s for %d rows', np.shape(got), len(rows))
        return [v.item() if hasattr(v, 'item') else v for v in got]

    q = c['query']
    exp = want(q)
    got = ask(c['box'], q)
    need(got == exp, 'rule %s, rows %s in a %s: predicted %s, expected %s', rule,
         ref.matrix(q, n), c['box'], got, exp)
    q2 = [q[i] for i in c['perm']][:c['sub']]
    got = ask(c['box'], q2)
    need(got == want(q2), 'rule %s, permuted subset %s: predicted %s, expected %s',
         rule, ref.matrix(q2, n), got, want(q2))
    if 'many' in c:
        k = len(q)
        rows = [q[c['perm'][i * (i // k + 1) % k]] for i in range(c['many'])]
        got, exp2 = ask(c['box'], rows), want(rows)
        bad = [i for i, (a, b) in enumerate(zip(got, exp2)) if a != b]
        need(not bad, 'rule %s, %d rows: row %s predicted %s, expected %s', rule, len(rows),
             bad and bad[0], bad and got[bad[0]], bad and exp2[bad[0]])
        rec.label('many rows')
    got = ask('int64', c['rows'])
    need(got == want(c['rows']), 'training rows: predicted %s, expected %s', got,
         want(c['rows']))
    if 'mix' in c:
        # the training rows in another order, some of them replaced
        mix = list(c['rows'])
        for i, j in c['mix']:
            if j < 0:
                mix[i] = q[-1 - j]
            else:
                mix[i], mix[j] = mix[j], mix[i]
        got = ask('int64', mix)
        need(got == want(mix), 'rule %s, rows like the training rows %s: predicted %s, '
             'expected %s', rule, ref.matrix(mix, n), got, want(mix))
    if 'y2' in c and m_ok(c['y2']):
        clf.fit(X, np.array([lab[t] for t in c['y2']]))
        first, rule = rule, rule_of(clf.master_problem)
        for rows in (q, c['rows']):
            got = ask(c['box'], rows)
            need(got == want(rows), 'trained again, rule %s after %s, rows %s: predicted %s, '
                 'expected %s', rule, first, ref.matrix(rows, n), got, want(rows))
        rec.lab(rule != first, 'other rule after training again')
    rec.lab(not rule, 'empty rule')
    rec.lab([] in rule, 'empty clause')
    rec.lab(len(rule) > 1, 'several clauses')
    rec.label('box ' + c['box'])
    rec.nt(len(set(exp)) == 2 and any(r not in c['rows'] for r in q)
           and c['box'] != 'int64')


CAMPAIGNS = [
    Campaign('learned', cases(), check, quick=2800),
    Campaign('injected', cases(inject=True), check, quick=2800),
    Campaign('wide', wide_cases(), check, quick=1200),
    Campaign('long', long_cases(), check, quick=120),
]
