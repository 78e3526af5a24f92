import random

from hypothesis import strategies as st
import numpy as np
import pandas as pd

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from props.c07 import rule_of
from sut import (BDRMasterProblem, BaseMasterProblem, BaseSubproblem,
                 BooleanDecisionRuleClassifier,
                 BooleanDecisionRuleClassifierWithHeuristic, ColGenClassifier,
                 DTreeClassifier, DTreeMasterProblem,
                 one_thread)

RULE = ('Label alphabets of every kind (integers of any sign and size, strings, '
        'booleans, whole floats), orders of appearance, imbalance and containers, for '
        'the base classifier with recording stubs, both rule classifiers and the tree '
        'classifier. Non-trivial: the labels are not already 0..k-1 in order of '
        'appearance.')
ASSUMPTIONS = ['Renaming is compared with equal random seeds and single-threaded MPSolver '
               'instances; a difference counts when seven repetitions agree.']

ALPHA = [
    [0, 1, 2, 3], [1, 2, 3, 4], [-1, 1, 5, 9], [-7, -3, -2, 0], [5, 11, 100, 7000],
    [2 ** 40, -2 ** 40, 0, 3], ['a', 'b', 'c', 'd'], ['no', 'yes', 'maybe', ''],
    ['B', 'a', 'A', 'b'], ['10', '9', '1', '100'], [False, True], [0.0, 1.0, 2.0, -4.0],
    ['ä', 'z', 'é', 'zz'], [255, 256, -256, 1], [3, 2, 1, 0],
    [' b', 'b', 'b ', 'B '], ['', ' ', '  ', 'x'], ['1', '01', '1.0', '+1'],
    [2 ** 60, 2 ** 60 + 1, 2 ** 60 - 1, 2 ** 53], [-2 ** 62, -2 ** 62 + 1, -5, 2 ** 62],
    [2 ** 31, 2 ** 31 + 1, 2 ** 32, 0], [1e16, 1e16 + 2, -1e16, 0.0],
    ['class 1', 'class 10', 'class 1 ', 'Class 1'], ['e\u0301', '\xe9', 'e', '\xe8'],
]
BOXES = ['list', 'tuple', 'array', 'array', 'series', 'object', 'frameindex', 'small']


@st.composite
def labels(draw, k):
    a = draw(S([x for x in ALPHA if len(x) >= k]))
    return list(draw(st.permutations(a)))[:k]


def lab_order(vals):
    return sorted(vals)


@st.composite
def stub_cases(draw):
    k = draw(S([1, 2, 2, 3, 3, 4]))
    m = draw(I(max(2, k), 10))
    y = [draw(I(0, k - 1)) for _ in range(m)]
    if gen.chance(draw, 1, 3):
        y = [0] * m
        for c in range(1, k):
            y[draw(I(0, m - 1))] = c
    nf = draw(I(1, 3))
    lab = draw(labels(k))
    again = []
    for _ in range(draw(S([0, 0, 0, 1, 2]))):
        # the same estimator is fitted again: with fewer, more or other labels
        pool = draw(S([lab, lab, lab[1:], lab[:-1], [a for a in ALPHA if lab[0] in a][-1]]))
        again.append([draw(S(pool)) for _ in y] if pool else [lab[0]] * m)
    return {'labels': lab, 'y': y, 'again': again, 'box': draw(S(BOXES)),
            'X': [[draw(I(-3, 3)) for _ in range(nf)] for _ in range(m)],
            'levels': draw(S([[1], [1, 2], [2, 0, 1]])), 'iters': draw(S([-1, 1, 3])),
            'cols': draw(I(0, 3))}


@st.composite
def crowd_cases(draw):
    """Up to hundreds of classes."""
    return {'crowd': draw(I(0, 10 ** 9)), 'k': draw(I(5, 420)), 'extra': draw(I(0, 60)),
            'kind': draw(S(['int', 'small', 'neg', 'str', 'float', 'huge', 'blank'])), 'box': draw(S(BOXES)),
            'levels': draw(S([[1], [1, 2]])), 'iters': draw(S([-1, 1, 3])),
            'cols': draw(I(0, 3))}


def crowd(c):
    rnd = random.Random(c['crowd'])
    k = c['k']
    pool = {'int': range(-5000, 5000), 'small': range(k + 3), 'neg': range(-k - 3, 0),
            'str': ['%d' % i for i in range(3000)],
            'huge': range(2 ** 61, 2 ** 61 + 3000),
            'blank': [' ' * (i % 7) + 'c%d' % (i // 49) + ' ' * (i // 7 % 7) for i in range(3000)],
            'float': [float(v) for v in range(-900, 900)]}[c['kind']]
    lab = rnd.sample(list(pool), k)
    y = list(range(k)) + [rnd.randrange(k) for _ in range(c['extra'])]
    rnd.shuffle(y)
    return dict(c, labels=lab, y=y, X=[[rnd.randint(-3, 3)] for _ in y])


def ybox(kind, vals):
    if kind == 'list':
        return list(vals)
    if kind == 'tuple':
        return tuple(vals)
    if kind == 'series':
        return pd.Series(vals)
    if kind == 'frameindex':
        return pd.Series(vals, index=range(100, 100 - len(vals), -1))
    if kind == 'object' and isinstance(vals[0], str):
        return np.array(vals, dtype=object)
    if kind == 'small' and all(type(v) is int and 0 <= v < 250 for v in vals):
        return np.array(vals, dtype=np.uint8)
    return np.array(vals)


def plain(v):
    return v.item() if hasattr(v, 'item') else v


def same(a, b):
    """Equal values, 1 is not True and not '1'."""
    a, b = plain(a), plain(b)
    if isinstance(a, (bool, str)) or isinstance(b, (bool, str)):
        return type(a) is type(b) and a == b
    return a == b


def same_list(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


class Calls:
    """Counts calls of methods of classes while in use."""

    def __init__(self, *targets):
        self.targets = targets
        self.count = 0

    def __enter__(self):
        self.old = [(c, n, c.__dict__[n]) for c, n in self.targets if n in c.__dict__]
        for c, n, f in self.old:
            def method(obj, *a, _f=f, **k):
                self.count += 1
                return _f(obj, *a, **k)
            setattr(c, n, method)
        return self

    def __exit__(self, *a):
        for c, n, f in self.old:
            setattr(c, n, f)


class Log:
    def __init__(self):
        self.calls = []

    def y(self, who, y):
        self.calls.append((who, [plain(v) for v in np.asarray(y).tolist()]))


class Master(BaseMasterProblem):
    def __init__(self, log):
        self.log = log
        self.solver_ = None
        self.generated_ = False

    def generate_mp(self, X, y):
        self.log.y('generate_mp', y)

    def add_column(self, column):
        self.log.calls.append(('add', None))
        return True

    def solve_rmp(self, solver_params=''):
        self.log.calls.append(('solve', None))
        return 'duals'

    def solve_ip(self, solver_params=''):
        self.log.calls.append(('ip', None))
        return True


class Sub(BaseSubproblem):
    def __init__(self, log, n):
        self.log, self.n = log, n
        self.cp_solver_ = self.solver_ = None

    def update_subproblem(self, X, y, dual_costs):
        self.log.y('update', y)

    def generate_columns(self, X, y, dual_costs, params=''):
        self.log.y('generate_columns', y)
        self.n -= 1
        return ['column'] if self.n >= 0 else []


def check_classes(clf, order, k):
    got = [plain(v) for v in np.asarray(clf.classes_).tolist()]
    need(same_list(got, order), 'classes_ is %s, the sorted distinct labels are %s', got,
         order)


def refuses(clf, X, y, calls):
    try:
        clf.fit(X, y)
    except ValueError:
        pass
    else:
        need(False, 'training data with a single class was accepted')
    need(not calls(), 'a model was built for a single class: %s', calls())


def stub(c, rec):
    if 'crowd' in c:
        c = crowd(c)
    log = Log()
    subs = [[Sub(log, c['cols']) for _ in range(n)] for n in c['levels']]
    clf = ColGenClassifier(max_iterations=c['iters'], master_problem=Master(log),
                           subproblems=subs, rmp_is_ip=True,
                           subproblem_params=[['' for _ in l] for l in subs])
    fits = [[c['labels'][v] for v in c['y']]] + c.get('again', [])
    for k, vals in enumerate(fits):
        del log.calls[:]
        for sp in sum(subs, []):
            sp.n = c['cols']
        fitted(c, rec, clf, log, vals)
        rec.lab(k and len(set(vals)) > 1 and set(vals) < set(fits[k - 1]),
                'refitted with fewer labels')
        rec.lab(k and set(vals) - set(fits[k - 1]), 'refitted with new labels')


def fitted(c, rec, clf, log, vals):
    order = lab_order(set(vals))
    X = np.array(c['X'], dtype=float)
    if len(order) < 2:
        rec.label('single class')
        rec.nt()
        refuses(clf, X, ybox(c['box'], vals), lambda: log.calls)
        return
    need(clf.fit(X, ybox(c['box'], vals)) is clf, 'fit did not return the classifier')
    check_classes(clf, order, len(order))
    code = [order.index(v) for v in vals]
    for who, y in log.calls:
        if y is not None:
            need(y == code and not any(isinstance(v, (str, bool)) for v in y),
                 '%s received the labels %s for %s, expected %s', who, y, vals, code)
    seen = {w for w, y in log.calls if y is not None}
    need(seen >= {'generate_mp', 'update', 'generate_columns'}, 'labels only reach %s', seen)
    rec.label('%d classes' % len(order) if len(order) < 5 else 'more than %d classes' %
              (256 if len(order) > 256 else 128 if len(order) > 128 else 4), type(order[0]).__name__, 'box ' + c['box'])
    first = list(dict.fromkeys(vals))
    rec.nt(first != list(range(len(order))))


@st.composite
def rule_cases(draw):
    c = draw(gen.rule_data(max_n=5, max_m=10))
    if gen.chance(draw, 1, 12):
        c['y'] = [1] * len(c['y'])
    c.update(A=draw(labels(2)), B=draw(labels(2)), C=draw(S([2, 3, 4, 6, 10])),
             p=draw(S([1, 2, 0.5])), heur=draw(gen.B), boxA=draw(S(BOXES)),
             boxB=draw(S(BOXES)), iters=draw(S([-1, -1, 1])))
    c['query'] = gen.bitrows(draw, c['n'], draw(I(1, 8)), draw(S([0, 1, 2])))
    return c


def compare(c, rec, make, X, Q, decode):
    """Trains with both alphabets and compares."""
    codes = sorted(set(c['y']))
    k = len(codes)

    def run(al):
        order = lab_order(c[al][:k])
        vals = [order[codes.index(v)] for v in c['y']]
        random.seed(c.get('rseed', 0))
        clf = make()
        need(clf.fit(X, ybox(c['box' + al], vals)) is clf, 'fit did not return the classifier')
        check_classes(clf, order, k)
        out = []
        for rows in (X, Q):
            got = [plain(v) for v in clf.predict(rows)]
            for v in got:
                need(any(same(v, o) for o in order), 'predicted %r, classes are %s', v, order)
            out.append([order.index(v) for v in got])
            exp = decode(clf, rows)
            need(out[-1] == exp, 'the learned model gives the classes %s of %s, predicted %s',
                 exp, order, got)
        rec.label(type(order[0]).__name__)
        return out
    with one_thread():
        a, b = run('A'), run('B')
        if a != b:
            # the solvers may break ties differently
            more = [run('A') == a and run('B') == b for _ in range(6)]
            rec.label('tie broken differently')
            need(not all(more), 'labels %s and %s give the classes %s and %s',
                 lab_order(c['A'][:k]), lab_order(c['B'][:k]), a, b)
    rec.label('%d classes' % k)
    rec.nt(len(set(a[0] + a[1])) > 1 and
           any(lab_order(c[x][:k]) != list(range(k)) for x in 'AB'))


def rules(c, rec):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)

    def make():
        return cls(max_iterations=c['iters'], C=c['C'], p=c['p'])
    X = sut.binary_X(c['rows'], c['n'])
    Q = sut.binary_X(c['query'], c['n'])
    if len(set(c['y'])) < 2:
        rec.label('single class')
        rec.nt()
        with Calls((BDRMasterProblem, 'generate_mp'), (BDRMasterProblem, 'solve_rmp')) as w:
            refuses(make(), X, ybox(c['boxA'], [c['A'][0]] * len(X)), lambda: w.count)
        return

    def decode(clf, M):
        rule = rule_of(clf.master_problem)
        return [1 if any(all(x[j] for j in k) for k in rule) else 0 for x in M]
    compare(c, rec, make, X, Q, decode)


@st.composite
def tree_cases(draw):
    k = draw(S([2, 2, 3, 4]))
    c = draw(gen.tree_with_paths(max_rows=10, min_rows=3, depths=(1, 2, 2, 3),
                                 max_splits=6, max_k=k, trees=1))
    k = len(set(c['y']))
    if gen.chance(draw, 1, 15):
        c['y'] = [0] * len(c['y'])
    c.update(A=draw(labels(max(k, 2))), B=draw(labels(max(k, 2))), boxA=draw(S(BOXES)),
             boxB=draw(S(BOXES)), iters=draw(S([1, 1, 2])), rseed=draw(I(0, 10 ** 6)),
             lazy=draw(gen.B))
    nf = len(c['X'][0])
    c['query'] = [[draw(S([-1.0, 0.0, 0.5, 1.0, 1.5, 2.0, 2.75, 9.0])) for _ in range(nf)]
                  for _ in range(draw(I(1, 6)))]
    return c


def tree(c, rec):
    def make():
        t = sut.TreeSUT(c)
        return DTreeClassifier(
            t.tree_paths(c['trees'][0]), t.leaves, t.nodes, t.splits, tree_depth=t.depth,
            targets=list(t.td.classes), max_iterations=c['iters'],
            master_beta_constraints_as_cuts=c['lazy'])
    X = np.array(c['X'], dtype=float)
    Q = np.array(c['query'], dtype=float)
    if len(set(c['y'])) < 2:
        rec.label('single class')
        rec.nt()
        with Calls((DTreeMasterProblem, 'generate_mp'), (DTreeMasterProblem, 'solve_rmp')) as w:
            refuses(make(), X, ybox(c['boxA'], [c['A'][0]] * len(X)), lambda: w.count)
        return

    def decode(clf, M):
        assign, target = {}, {}
        for p in clf.master_problem.selected_paths:
            assign.update(sut.assign_of(p))
            target[p.leaf_id] = p.target
        return [target[ref.walk(x, c['d'], assign, c['splits'])] for x in M.tolist()]
    compare(c, rec, make, X, Q, decode)


CAMPAIGNS = [
    Campaign('base', stub_cases(), stub, quick=6000),
    Campaign('crowd', crowd_cases(), stub, quick=800),
    Campaign('rules', rule_cases(), rules, quick=2400),
    Campaign('trees', tree_cases(), tree, quick=1000),
]
