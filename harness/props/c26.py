"""C26: malformed input is refused, and a refused call changes nothing."""
import random

from hypothesis import strategies as st
from scipy import sparse
from sklearn.exceptions import NotFittedError
import numpy as np
import pandas as pd

import gen
import sut
from core import Campaign, need
from gen import I, S
from props.c03 import Log, Master, Sub
from props.c07 import rule_of
from props.c08 import Bound
from props.c11 import rows_for
from sut import (BDRMasterProblem, BooleanDecisionRuleClassifier,
                 BooleanDecisionRuleClassifierWithHeuristic, ColGenClassifier,
                 DTreeClassifier, DTreeMasterProblem, one_thread)

RULE = ('Histories of valid fits and predictions mixed with calls on malformed data '
        '(NaN, infinite, text, missing, empty, wrongly shaped, sparse or mismatched X '
        'and y, continuous or single-class labels) for the base classifier with '
        'recording stubs, both rule classifiers and the tree classifier. Non-trivial: '
        'a malformed call after a successful fit.')
ASSUMPTIONS = ['Refused means ValueError or TypeError. Rows of another width than the '
               'training data and rule data other than 0/1 are outside the domain.']

FIT = ['nan', 'inf', '-inf', 'text', 'none', 'one_d', 'three_d', 'no_rows', 'no_columns',
       'sparse', 'few_labels', 'many_labels', 'y_none', 'y_nan', 'continuous', 'two_columns',
       'one_class', 'complex', 'ragged']
PRED = ['nan', 'inf', '-inf', 'text', 'none', 'one_d', 'three_d', 'no_rows', 'no_columns',
        'sparse_nan', 'complex', 'ragged']


@st.composite
def bad_call(draw):
    kind = draw(S(['fit', 'fit', 'predict']))
    return [kind, draw(S(FIT if kind == 'fit' else PRED)),
            draw(S(['list', 'array', 'array', 'frame', 'object'])),
            draw(I(0, 10 ** 6)), draw(I(0, 10 ** 6)), draw(I(0, 2))]


@st.composite
def calls(draw):
    ops = []
    for _ in range(draw(I(1, 6))):
        if gen.chance(draw, 1, 4):
            ops.append(draw(S([['fit'], ['predict']])))
        ops.append(['bad'] + draw(bad_call()))
    if gen.chance(draw, 2, 3):
        ops.insert(0, ['fit'])
    return ops


@st.composite
def stub_cases(draw):
    m = draw(I(2, 8))
    nf = draw(I(1, 3))
    k = draw(I(2, min(3, m)))
    y = [i % k for i in range(m)]
    return {'X': [[draw(I(-3, 3)) for _ in range(nf)] for _ in range(m)],
            'y': list(draw(st.permutations(y))), 'ops': draw(calls()),
            'labels': draw(S([[0, 1, 2], [-5, 3, 9], ['a', 'b', 'c']]))}


@st.composite
def rule_cases(draw):
    c = draw(gen.rule_data(max_n=5, max_m=9))
    c['heur'] = draw(gen.B)
    c['C'], c['p'] = draw(S(gen.CVALS)), draw(S([1, 2, 0.5]))
    c['labels'] = draw(S([[0, 1], [-3, 7], ['a', 'b'], [False, True]]))
    c['ops'] = draw(calls())
    return c


@st.composite
def tree_cases(draw):
    c = draw(gen.tree_with_paths(max_rows=10, min_rows=4, depths=(1, 2, 2, 3), max_splits=5,
                                 trees=1, min_splits=2))
    c['iters'], c['rseed'] = draw(S([1, 2, 3])), draw(I(0, 10 ** 6))
    c['rowmode'] = draw(S(['plain', 'own', 'normal']))
    c['labels'] = draw(S([[0, 1, 2, 3, 4], [-5, 3, 9, 11, 20], ['a', 'b', 'c', 'd', 'e']]))
    c['ops'] = draw(calls())
    return c


def spoil_X(kind, X, box, i, j):
    """A malformed version of the rows X (2-d array) and whether it stays 2-d."""
    m, n = X.shape
    i, j = i % m, j % n
    if kind == 'one_d':
        return X[i].tolist() if box == 'list' else X[i].astype(float)
    if kind == 'three_d':
        Z = X.reshape(1, m, n) if j % 2 else X.reshape(m, n, 1)
        return Z.tolist() if box == 'list' else Z
    if kind == 'no_rows':
        Z = X[:0]
        return pd.DataFrame(Z) if box == 'frame' else Z
    if kind == 'no_columns':
        Z = X[:, :0]
        return pd.DataFrame(Z) if box == 'frame' else Z
    if kind in ('sparse', 'sparse_nan'):
        Z = X.astype(float)
        if kind == 'sparse_nan':
            Z[i, j] = np.nan
        return (sparse.csr_matrix if box == 'list' else sparse.csc_matrix)(Z)
    if kind == 'complex':
        Z = X.astype(complex)
        Z[i, j] += 1j
        return Z
    rows = X.tolist()
    if kind == 'ragged':
        if m == 1:
            rows.append(list(rows[0]))
        rows[i] = rows[i] + [rows[i][-1]]
        return rows
    bad = {'nan': float('nan'), 'inf': float('inf'), '-inf': float('-inf'),
           'text': 'high', 'none': None}[kind]
    rows[i][j] = bad
    if box == 'list' and kind != 'none':
        return rows
    if box == 'frame':
        return pd.DataFrame(rows)
    if box == 'object' or kind == 'none':
        return np.array(rows, dtype=object)
    return np.array(rows)


def spoil(kind, X, y, box, i, j):
    """(X, y) for fit."""
    if kind in ('few_labels', 'many_labels'):
        y = np.concatenate([y, y[:1]]) if kind == 'many_labels' else y[:-1]
    elif kind == 'y_none':
        y = None
    elif kind in ('y_nan', 'continuous'):
        if y.dtype.kind in 'US':
            y = np.arange(len(y))
        y = y.astype(float)
        y[i % len(y)] = np.nan if kind == 'y_nan' else 0.37
    elif kind == 'two_columns':
        y = np.column_stack([y, y])
    elif kind == 'one_class':
        y = np.array([y[i % len(y)]] * len(y))
    else:
        X = spoil_X(kind, X, box, i, j)
        return X, (y[:0] if kind == 'no_rows' else y)
    return (X.tolist() if box == 'list' else X), y


def refused(call, what):
    try:
        call()
    except NotFittedError:
        return True
    except (ValueError, TypeError):
        return False
    need(False, '%s was accepted', what)


def run(c, rec, clf, X, y, probe, answers, calls_, facts, fresh=None):
    """Drives one classifier through the history. calls_() counts model calls, facts()
    describes what the last fit learned, answers(clf) are its predictions, fresh() is a
    new classifier that should learn the same."""
    want, fitted, fits = None, False, 0
    params = clf.get_params(deep=False)
    for op in c['ops'] + [['predict']]:
        if op[0] == 'fit':
            clf.fit(X.copy(), y.copy())
            fitted, fits = True, fits + 1
            first, want = want, (answers(clf), facts(clf))
            if fresh and (first is None or first != want):
                def one():
                    f = fresh()
                    f.fit(X.copy(), y.copy())
                    return (answers(f), facts(f))
                need(any(one() == want for _ in range(6 if first else 3)),
                     'after refused calls fit learned %s, a new classifier does not', want)
            continue
        if op[0] == 'bad':
            _, what, kind, box, i, j, _ = op
            n0 = calls_()
            name = '%s with %s data (%s)' % (what, kind, box)
            if what == 'fit':
                Z, t = spoil(kind, X, y, box, i, j)
                unfit = refused(lambda: clf.fit(Z, t), name)
                need(not unfit, '%s: NotFittedError from fit', name)
            else:
                Z = spoil_X(kind, probe, box, i, j)
                refused(lambda: clf.predict(Z), name)
            need(calls_() == n0, '%s: problems were built or solved before the refusal',
                 name)
            rec.label(what + ' ' + kind)
            if fitted:
                rec.nontrivial = True
        after = 'after %s' % (' '.join(map(str, op[1:4])) if op[0] == 'bad' else 'fit')
        got = clf.get_params(deep=False)
        need(set(got) == set(params) and all(got[k] is params[k] or got[k] == params[k]
                                             for k in params),
             '%s: the parameters changed', after)
        if not fitted:
            try:
                answers(clf)
            except NotFittedError:
                continue
            need(False, '%s: predicts without a successful fit', after)
        now = (answers(clf), facts(clf))
        need(now[0] == want[0], '%s: predictions are %s, were %s', after, now[0], want[0])
        need(now[1] == want[1], '%s: the fitted model is %s, was %s', after, now[1], want[1])


def stub(c, rec):
    log = Log()
    subs = [[Sub(log, 2)], [Sub(log, 1)]]
    clf = ColGenClassifier(master_problem=Master(log), subproblems=subs, rmp_is_ip=True,
                           subproblem_params=[[''], ['']])
    X = np.array(c['X'], dtype=float)
    y = np.array([c['labels'][t] for t in c['y']])

    def facts(clf):
        return {k: (v.tolist() if hasattr(v, 'tolist') else v)
                for k, v in ((n, getattr(clf, n)) for n in (
                    'classes_', 'X_', 'y_', 'mp_optimal_', 'iter_', 'num_col_added_sp_'))}

    def answers(clf):
        if not hasattr(clf, 'classes_'):
            raise NotFittedError()
        return None
    ops = [o for o in c['ops'] if o[0] != 'bad' or o[1] == 'fit']
    run(dict(c, ops=ops), rec, clf, X, y, X, answers, lambda: len(log.calls), facts)


class Count:
    """Counts calls of methods while in use."""

    def __init__(self, cls):
        self.cls, self.n = cls, 0

    def __enter__(self):
        self.old = {k: self.cls.__dict__[k] for k in
                    ('generate_mp', 'solve_rmp', 'solve_ip', 'add_column')
                    if k in self.cls.__dict__}
        for k, f in self.old.items():
            def method(obj, *a, _f=f, **kw):
                self.n += 1
                return _f(obj, *a, **kw)
            setattr(self.cls, k, method)
        return self

    def __exit__(self, *a):
        for k, f in self.old.items():
            setattr(self.cls, k, f)


def rule(c, rec):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    with one_thread():
        clf = cls(C=c['C'], p=c['p'])
    X = sut.binary_X(c['rows'], c['n'])
    y = np.array([sorted(c['labels'])[t] for t in c['y']])
    cube = sut.binary_X(range(2 ** c['n']), c['n'])

    def facts(clf):
        return {'rule': sorted(sorted(k) for k in rule_of(clf.master_problem)),
                'classes': [str(v) for v in clf.classes_], 'mp_optimal_': clf.mp_optimal_,
                'iterations': clf.iter_}

    def answers(clf):
        return [str(v) for v in clf.predict(cube)]
    with one_thread(), Count(BDRMasterProblem) as n:
        run(c, rec, clf, X, y, cube, answers, lambda: n.n, facts,
            lambda: cls(C=c['C'], p=c['p']))


def tree(c, rec):
    t = sut.TreeSUT(c)
    kw = dict(initial_paths=[p for a in c['trees'] for p in t.tree_paths(a)], leaves=t.leaves, nodes=t.nodes,
              splits=t.splits, tree_depth=t.depth, targets=list(t.td.classes),
              max_iterations=c['iters'], data_rows=rows_for(c['rowmode'], t))
    clf = DTreeClassifier(**kw)
    X = np.array(t.X)
    names = c['labels']
    y = np.array([names[v] for v in t.y])

    def facts(clf):
        return {'paths': sorted((p.leaf_id, sorted(sut.assign_of(p).items()), p.target)
                                for p in clf.master_problem.selected_paths),
                'classes': [str(v) for v in clf.classes_], 'iterations': clf.iter_}

    def answers(clf):
        return [str(v) for v in clf.predict(X)]
    random.seed(c['rseed'])
    with one_thread(), Bound(DTreeMasterProblem, 4000), Count(DTreeMasterProblem) as n:
        run(c, rec, clf, X, y, X, answers, lambda: n.n, facts)


CAMPAIGNS = [
    Campaign('stubs', stub_cases(), stub, quick=1500),
    Campaign('rules', rule_cases(), rule, quick=900),
    Campaign('trees', tree_cases(), tree, quick=400),
]
