import copy
import random

from hypothesis import strategies as st
from sklearn.base import clone
from sklearn.exceptions import NotFittedError
from sklearn.model_selection import GridSearchCV, KFold
import numpy as np

import gen
import pristine
import ref
import sut
from core import Campaign, attr, need, norm
from gen import I, S
from props.c07 import rule_of
from props.c08 import Bound
from props.c11 import rows_for
from sut import (BooleanDecisionRuleClassifier,
                 BooleanDecisionRuleClassifierWithHeuristic, DTreeClassifier,
                 DTreeMasterProblem, one_thread)

RULE = ('Histories of set_params, clone, fit on changing data, predict and further '
        'instances, against fresh classifiers constructed with the final parameters; '
        'grid searches against loops over fresh classifiers; tree classifiers that '
        'share splits, nodes, leaves and paths. Non-trivial: a parameter changed after '
        'a fit, or a second fit on other data, or shared objects, and the compared '
        'model is not the constant one.')
ASSUMPTIONS = ['Fits are compared with equal random seeds and single-threaded MPSolver '
               'and CP-SAT solvers; a difference counts when seven repetitions agree. Scratch fields of splits and rows (cuts, path ids, parents) '
               'are not the caller\'s data.']

SPACE = {
    'max_iterations': [-1, -1, 1, 2, 0, -7], 'C': [2, 3, 4, 6, 10], 'p': [1, 2, 0.5, 3, 0.25, 0, 1.0],
    'rmp_solver': ['glop', 'glop', 'clp'], 'subproblem_solver': ['cbc', 'cbc', 'sat'],
    'rmp_solver_params': ['', 'x'], 'master_ip_solver_params': ['', 'y'],
}


@st.composite
def setting(draw, some=False):
    out = {}
    for k, vs in SPACE.items():
        if not some or gen.chance(draw, 1, 3):
            out[k] = draw(S(vs))
    if some and not out:
        out['C'] = draw(S(SPACE['C']))
    return out


LABELS = [[0, 1], [0, 1], [-3, 7], ['a', 'b'], [False, True]]


@st.composite
def rule_cases(draw):
    c = {'heur': draw(gen.B), 'init': draw(setting(some=True)),
         'data': [draw(gen.rule_data(max_n=5, max_m=9)) for _ in range(draw(I(1, 3)))]}
    for d in c['data']:
        d['labels'] = draw(S(LABELS))
    ops = []
    for _ in range(draw(I(1, 6))):
        x = draw(I(0, 9))
        if x <= 3:
            ops.append(['fit', draw(I(0, len(c['data']) - 1))])
        elif x <= 6:
            ops.append(['set', draw(setting(some=True))])
        elif x == 7:
            ops.append(['clone'])
        elif x == 8:
            ops.append(['other', draw(setting(some=True)), draw(I(0, len(c['data']) - 1))])
        else:
            ops.append(['predict'])
    ops.append(['fit', draw(I(0, len(c['data']) - 1))])
    c['ops'] = ops
    return c


def data_of(d):
    lab = sorted(d['labels'])
    return sut.binary_X(d['rows'], d['n']), np.array([lab[t] for t in d['y']])


def params_equal(clf, model, default, what):
    got = clf.get_params()
    exp = dict(default, **model)
    need(set(got) == set(exp), '%s: parameters %s, expected %s', what, sorted(got), sorted(exp))
    for k, v in exp.items():
        need(type(got[k]) is type(v) and got[k] == v, '%s: parameter %s is %r, expected %r',
             what, k, got[k], v)


def unfitted(clf, X, what):
    try:
        clf.predict(X)
    except NotFittedError:
        return
    need(False, '%s predicts without having been fitted', what)


def outcome(clf, X):
    mp = clf.master_problem
    cube = sut.binary_X(range(2 ** X.shape[1]), X.shape[1])
    return {'rule': sorted(sorted(k) for k in rule_of(mp)),
            'predictions': [str(v) for v in clf.predict(cube)],
            'iterations': attr(clf, 'iter_'), 'mp_optimal_': bool(attr(clf, 'mp_optimal_')),
            'columns': attr(clf, 'num_col_added_sp_'),
            'classes': [str(v) for v in clf.classes_]}


def kept(X, y, X0, y0, what):
    need(X.dtype == X0.dtype and np.array_equal(X, X0) and np.array_equal(y, y0)
         and y.dtype == y0.dtype, '%s changed the training data', what)


def fresh_rule(c, model):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    X, y = data_of(c['data'][c['ops'][-1][1]])
    with one_thread():
        clf = cls(**model)
        clf.fit(X, y)
        return norm(outcome(clf, X))


def history(c, rec):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    default = cls().get_params()
    model = dict(c['init'])
    data = [data_of(d) for d in c['data']]

    def replay():
        """Runs the history, returns the last outcome."""
        model = dict(c['init'])
        clf = cls(**model)
        params_equal(clf, model, default, 'constructed')
        fitted, last = None, None
        for op in c['ops']:
            if op[0] == 'set':
                need(clf.set_params(**op[1]) is clf, 'set_params did not return the classifier')
                model.update(op[1])
                params_equal(clf, model, default, 'set_params(%s)' % op[1])
            elif op[0] == 'clone':
                new = clone(clf)
                need(type(new) is type(clf) and new is not clf, 'clone: %r', new)
                params_equal(new, model, default, 'clone')
                unfitted(new, data[0][0], 'clone')
                if fitted is not None and gone == model:
                    need(outcome(clf, fitted) == last, 'cloning changed the fitted classifier')
                clf, fitted = new, None
            elif op[0] == 'other':
                o = cls(**op[1])
                X, y = data[op[2]]
                o.fit(X, y)
                o.set_params(C=3)
                if fitted is not None:
                    need(outcome(clf, fitted) == last, 'fitting another instance changed '
                         'the fitted classifier')
            elif op[0] == 'predict':
                if fitted is None:
                    unfitted(clf, data[0][0], 'unfitted classifier')
                else:
                    need(outcome(clf, fitted) == last, 'predicting twice gives other results')
            else:
                X, y = data[op[1]]
                X0, y0 = X.copy(), y.copy()
                need(clf.fit(X, y) is clf, 'fit did not return the classifier')
                kept(X, y, X0, y0, 'fit')
                params_equal(clf, model, default, 'fit')
                gone = dict(model)
                fitted, last = X, outcome(clf, X)
                kept(X, y, X0, y0, 'predict')
        return norm(last)
    for op in c['ops']:
        if op[0] == 'set':
            model.update(op[1])

    def fresh():
        return PRISTINE.call(fresh_rule, c, model)
    with one_thread():
        a, b = replay(), fresh()
        if a != b:
            again = all(replay() == a and fresh() == b for _ in range(6))
            rec.label('tie broken differently')
            bad = [k for k in a if a[k] != b[k]]
            need(not again, 'parameters %s: %s', model, '; '.join(
                '%s is %s, of a fresh classifier %s' % (k, a[k], b[k]) for k in bad))
    kinds = [o[0] for o in c['ops']]
    fits = [o[1] for o in c['ops'] if o[0] == 'fit']
    re = len(set(fits)) > 1
    ch = 'set' in kinds and 'fit' in kinds[:-1]
    rec.lab(re, 'refit on other data')
    rec.lab(ch, 'parameter set after or between fits')
    rec.lab('clone' in kinds, 'clone')
    rec.lab('other' in kinds, 'second instance')
    rec.nt((re or ch) and len(set(a['predictions'])) > 1)


@st.composite
def grid_cases(draw):
    c = draw(gen.rule_data(max_n=4, max_m=12, min_m=6))
    c['heur'] = draw(gen.B)
    c['C'] = draw(S([[2, 10], [2, 3, 6], [4]]))
    c['p'] = draw(S([[1], [1, 0.25], [0.5, 3]]))
    c['folds'] = draw(I(2, 3))
    c['seed'] = draw(I(0, 100))
    c['labels'] = draw(S(LABELS))
    return c


def fresh_grid(c, folds):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    X, y = data_of(c)
    with one_thread():
        res, top = [], None
        for C in c['C']:
            for p in c['p']:
                s = []
                for a, b in folds:
                    f = cls(C=C, p=p)
                    f.fit(X[a], y[a])
                    s.append(float(np.mean(f.predict(X[b]) == y[b])))
                res.append((C, p, s))
                if top is None or np.mean(s) > top[0] + 1e-12:
                    top = (np.mean(s), C, p)
        f = cls(C=top[1], p=top[2]).fit(X, y)
        return norm([res, outcome(f, X), top[1], top[2]])


def grid(c, rec):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    X, y = data_of(c)
    folds = list(KFold(c['folds'], shuffle=True, random_state=c['seed']).split(X))
    folds = [(a, b) for a, b in folds if len(set(y[a])) == 2]
    if len(folds) < 2:
        rec.label('single class fold')
        return

    def search():
        g = GridSearchCV(cls(), {'C': c['C'], 'p': c['p']}, cv=folds)
        g.fit(X, y)
        res = [(q['C'], q['p'], [float(g.cv_results_['split%d_test_score' % i][j])
                                 for i in range(len(folds))])
               for j, q in enumerate(g.cv_results_['params'])]
        b = g.best_estimator_
        return norm([res, outcome(b, X), b.get_params()['C'], b.get_params()['p']])

    def loop():
        return PRISTINE.call(fresh_grid, c, [[a.tolist(), b.tolist()] for a, b in folds])
    with one_thread():
        a, b = search(), loop()
        if a != b:
            again = all(search() == a and loop() == b for _ in range(4))
            rec.label('tie broken differently')
            need(not again, 'grid search %s, fresh classifiers %s', a, b)
    rec.nt(len({str(r[2]) for r in a[0]}) > 1)


# ------------------------------------------------------------------ trees ----
def snap_tree(init, t, rows, targets):
    """The caller's data, without scratch fields."""
    return {
        'paths': [(p.leaf_id, list(p.node_ids), list(p.splits), p.target, p.cost)
                  for p in init],
        'leaves': [(l.id, sorted(l.left_nodes), sorted(l.right_nodes)) for l in t.leaves],
        'nodes': [(n.id, list(n.candidate_splits), list(n.candidate_splits_count))
                  for n in t.nodes],
        'splits': [(s.id, s.feature, s.threshold, sorted(s.left_rows), sorted(s.right_rows),
                    s.removed) for s in t.splits],
        'targets': [int(v) for v in targets],
        'rows': rows and [(r.target, sorted(r.left_splits), sorted(r.right_splits),
                           sorted(r.reachable_nodes), sorted(r.reachable_leaves),
                           r.removed_from_master, r.removed_from_sp, r.weight) for r in rows],
    }


@st.composite
def tree_cases(draw):
    c = draw(gen.tree_with_paths(max_rows=10, min_rows=4, depths=(1, 2, 2, 2, 3),
                                 max_splits=5, trees=2, wide_cands=True, min_splits=2))
    c['rowmode'] = draw(S(['own', 'normal', 'aggressive', 'plain']))
    c['torder'] = draw(S(['up', 'up', 'down']))
    c['rseed'] = draw(I(0, 10 ** 6))

    def pars():
        return {'max_iterations': draw(S([1, 1, 2, -1, -3])),
                'num_master_cuts_round': draw(S([1, 3])),
                'master_beta_constraints_as_cuts': draw(gen.B),
                'master_generate_cuts': draw(S([False, False, False, True])),
                'use_old_sp': draw(S([False, False, True])),
                'time_limit': draw(S([-1, 0, 1000, -10, 1000.5])),
                'master_solver_type': draw(S(['glop', 'glop', 'clp'])),
                'subproblem_params': draw(S(['', 'z'])),
                'rmp_solver_params': draw(S(['', 'x'])),
                'first': draw(S([0, 0, 1])), 'rows': draw(S([0, 1, 1]))}
    c['pars'] = [pars() for _ in range(draw(I(1, 3)))]
    ops = []
    for _ in range(draw(I(0, 3))):
        ops.append(draw(S([['fit'], ['clone'], ['set', draw(I(0, len(c['pars']) - 1))],
                           ['other', draw(I(0, len(c['pars']) - 1))], ['fit'],
                           ['small', draw(I(1, max(1, c['d'] - 1)))]])))
    ops += draw(S([[], [['set', len(c['pars']) - 1]], [['new', len(c['pars']) - 1]]]))
    if gen.chance(draw, 1, 3):
        ops.append(['clone'])
    ops.append(['fit'])
    c['ops'] = ops
    return c


class TreeWorld:
    """One set of objects shared by all classifiers of a history."""

    def __init__(self, c):
        self.c = c
        self.t = sut.TreeSUT(c)
        self.rows = rows_for(c['rowmode'], self.t)
        self.init = [[p for a in c['trees'] for p in self.t.tree_paths(a)],
                     self.t.tree_paths(c['trees'][0])]
        self.targets = list(self.t.td.classes)
        if c.get('torder') == 'down':
            self.targets.reverse()

    def kwargs(self, p):
        t = self.t
        k = {n: v for n, v in p.items() if n not in ('first', 'rows')}
        k.update(initial_paths=self.init[p['first']], leaves=t.leaves, nodes=t.nodes,
                 splits=t.splits, tree_depth=t.depth, targets=self.targets,
                 data_rows=self.rows if p['rows'] else None, master_ip_solver_params='')
        return k

    def small(self, d):
        t = self.t
        leaves = sut.make_leaves(d)
        tree = self.c['trees'][0]
        small = ref.TreeData(d, self.c['X'], self.c['y'], self.c['splits'],
                             self.c['cands'][:2 ** d - 1])
        init = []
        for leaf in range(2 ** d):
            a = {n: tree[n] for n, _ in ref.leaf_path(d, leaf)}
            init.append(sut.make_path(d, leaf, a, small.classes[0],
                                      small.count(small.rows(leaf, a), small.classes[0])))
        return DTreeClassifier(initial_paths=init, leaves=leaves, nodes=t.nodes[:2 ** d - 1],
                               splits=t.splits, tree_depth=d, targets=self.targets,
                               max_iterations=1)

    def snap(self):
        return [snap_tree(i, self.t, self.rows, self.targets) for i in self.init]


def tree_params(clf, kw, what, same=True):
    got = clf.get_params()
    need(set(got) == set(kw), '%s: parameters %s, expected %s', what, sorted(got), sorted(kw))
    for k, v in kw.items():
        if isinstance(v, list):
            ok = got[k] is v if same else type(got[k]) is list and len(got[k]) == len(v)
        else:
            ok = type(got[k]) is type(v) and got[k] == v
        need(ok, '%s: parameter %s is %r, expected %r', what, k, got[k], v)


def final(c, p, clf):
    t = sut.TreeSUT(c)
    pred = [int(v) for v in clf.predict(t.X)]
    paths = sorted((q.leaf_id, sorted(sut.assign_of(q).items()), q.target, round(q.cost, 3))
                   for q in clf.master_problem.selected_paths)
    return {'columns': clf.num_col_added_sp_, 'iterations': clf.iter_, 'paths': paths,
            'predictions': pred, 'mp_optimal_': clf.mp_optimal_}


def fresh_tree(c, p):
    w = TreeWorld(c)
    with one_thread():
        clf = DTreeClassifier(**w.kwargs(p))
        random.seed(c['rseed'])
        with Bound(DTreeMasterProblem, 4000):
            clf.fit(w.t.X, w.t.y)
        return norm(final(c, p, clf))


def tree_history(c, rec):
    def replay():
        w = TreeWorld(c)
        before = w.snap()
        cur = c['pars'][0]
        kw = w.kwargs(cur)
        clf = DTreeClassifier(**kw)
        tree_params(clf, kw, 'constructed')
        res, same = None, True
        for op in c['ops']:
            if op[0] == 'new':
                cur = c['pars'][op[1]]
                kw = w.kwargs(cur)
                clf, same = DTreeClassifier(**kw), True
            elif op[0] == 'set':
                cur = c['pars'][op[1]]
                kw = w.kwargs(cur)
                need(clf.set_params(**kw) is clf, 'set_params did not return the classifier')
                same = True
                tree_params(clf, kw, 'set_params')
            elif op[0] == 'clone':
                new = clone(clf)
                tree_params(new, kw, 'clone', same=False)
                unfitted(new, w.t.X, 'clone')
                g = new.get_params()
                fake = copy.copy(w.t)
                fake.leaves, fake.nodes, fake.splits = g['leaves'], g['nodes'], g['splits']
                need(snap_tree(g['initial_paths'], fake, g['data_rows'], g['targets']) ==
                     snap_tree(kw['initial_paths'], w.t, kw['data_rows'], w.targets),
                     'the clone has other parameters')
                clf, same = new, False
            elif op[0] == 'small':
                # the first nodes also serve a smaller tree
                if op[1] < c['d']:
                    w.small(op[1]).fit(w.t.X, w.t.y)
            elif op[0] == 'other':
                p = dict(c['pars'][op[1]], max_iterations=1)
                DTreeClassifier(**w.kwargs(p)).fit(w.t.X, w.t.y)
            else:
                random.seed(c['rseed'])
                X0, y0 = w.t.X.copy(), w.t.y.copy()
                with Bound(DTreeMasterProblem, 4000):
                    need(clf.fit(w.t.X, w.t.y) is clf, 'fit did not return the classifier')
                kept(w.t.X, w.t.y, X0, y0, 'fit')
                tree_params(clf, kw, 'fit', same=same)
                if op is not c['ops'][-1]:
                    continue
                res = final(c, cur, clf)
                kept(w.t.X, w.t.y, X0, y0, 'predict')
        after = w.snap()
        for x, y in zip(before, after):
            for k in x:
                need(x[k] == y[k], 'fitting changed the %s of the caller: %s, were %s', k, y[k],
                     x[k])
        return norm(res), cur

    def fresh(p):
        return PRISTINE.call(fresh_tree, c, p)
    with one_thread():
        a, cur = replay()
        b = fresh(cur)
        if a != b:
            again = all(replay()[0] == a and fresh(cur) == b for _ in range(6))
            rec.label('tie broken differently')
            need(not again, 'parameters %s: %s', cur, '; '.join(
                '%s is %s, of a fresh classifier on fresh objects %s' % (k, a[k], b[k])
                for k in a if a[k] != b[k]))
    kinds = [o[0] for o in c['ops']]
    fits = [k for k in kinds if k in ('fit', 'other', 'small')]
    rec.lab(any(o[0] == 'small' and o[1] < c['d'] for o in c['ops']), 'nodes of a smaller tree')
    rec.lab(len(fits) > 1, 'objects used before')
    rec.lab('clone' in kinds, 'clone')
    rec.lab('set' in kinds, 'set_params')
    rec.lab(sum(a['columns'][1]), 'exact columns')
    rec.nt(c['d'] > 1 and (len(fits) > 1 or 'set' in kinds or 'clone' in kinds)
           and sum(map(sum, a['columns'])))


CAMPAIGNS = [
    Campaign('rules', rule_cases(), history, quick=1200),
    Campaign('grid', grid_cases(), grid, quick=160),
    Campaign('trees', tree_cases(), tree_history, quick=480),
]

# Forked now, before any case runs in this process.
PRISTINE = pristine.Server()
