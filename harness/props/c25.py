import csv
import os
import shutil
import tempfile

from hypothesis import strategies as st
from sklearn.preprocessing import LabelEncoder
from sklearn.tree import DecisionTreeClassifier
import numpy as np

import gen
import ref
import sut
from boot import CLOCK
from core import Campaign, Known, Skip, attr, need
from gen import I, S
import examples.dtree_experiment as exp

RULE = ('Complete runs of the experiment in a scratch directory: generated CSV pairs '
        '(separators, header line / none / default, any labels, test values beyond the '
        'training data), depth 1-4 (a few 5-6), with and without iteration and time limit (real or '
        'virtual clock, so that the preprocessing limit strikes anywhere), short and '
        'long options. Non-trivial: depth >= 2, the training accuracy is between the '
        'majority share and 1, and columns were added or a limit struck.')
ASSUMPTIONS = ['CART is DecisionTreeClassifier(max_depth=depth, random_state=99) trained on '
               'the whole training file. The trained classifier is captured where the '
               'experiment constructs it. Feature values are exact in float32.']

LABELS = [[0, 1, 2], [1, 2, 3], [-4, 7, 30], ['a', 'b', 'c'], ['yes', 'no', 'maybe'],
          ['10 a', '9 b', '1'], [1000000, 0, -1]]


@st.composite
def cases(draw, clock=False):
    nf = draw(I(1, 5))
    m = draw(I(5, 26))
    vals = draw(S([[0.0, 1.0], [0.0, 1.0, 2.0, 3.0, 4.0], [-8.0, -0.5, 0.0, 0.25, 3.0, 64.0],
                   [v / 4.0 for v in range(-20, 21)]]))
    k = draw(S([2, 2, 3]))

    def row():
        return [draw(S(vals)) for _ in range(nf)]
    X = [row() for _ in range(m)]
    kind = draw(S(['random', 'rule', 'rule', 'xor']))
    if kind == 'random':
        y = [draw(I(0, k - 1)) for _ in range(m)]
    else:
        f, g = draw(I(0, nf - 1)), draw(I(0, nf - 1))
        a, b = draw(S(vals[:-1])), draw(S(vals[:-1]))
        y = []
        for x in X:
            t = int(x[f] <= a) ^ int(x[g] <= b) if kind == 'xor' else \
                (0 if x[f] <= a else 1 if x[g] <= b else k - 1)
            y.append(draw(I(0, k - 1)) if gen.chance(draw, 1, 7) else t)
    if len(set(y)) < 2:
        i = (draw(I(0, m - 1)) + 1) % m
        y[i] = (y[i] + 1) % k
    if len(set(x[0] for x in X)) < 2:
        i = [i for i in range(m) if y[i] != y[0]][0]
        X[i][0] = vals[-1] if X[i][0] != vals[-1] else vals[0]
    n = draw(I(1, 10))
    T = [list(draw(S(X))) if draw(gen.B) else row() for _ in range(n)]
    for x in T:
        if gen.chance(draw, 1, 4):
            x[draw(I(0, nf - 1))] = draw(S([-1000.0, 1000.0, 0.125]))
    present = sorted(set(y))
    c = {'X': X, 'y': y, 'T': T, 'ty': [draw(S(present)) for _ in range(n)],
         'labels': list(draw(st.permutations(draw(S(LABELS))))),
         'd': draw(S([1, 2, 2, 2, 3, 3, 4])), 'sep': draw(S([',', ',', ';', '|', '\t'])),
         'header': draw(S(['default', 'none', 'zero'])), 'long': draw(gen.B),
         'ints': draw(gen.B), 'dir': draw(S(['', '', 'sub', 'a_b'])),
         'iters': draw(S([None, None, 0, 1, 2, 4, -1])),
         'limit': draw(S([None, None, 60, 3600, -1, 0])), 'tick': 0}
    if clock:
        c['limit'] = draw(S([1, 2, 6, 30, 600]))
        # readings until the preprocessing limit strikes
        c['tick'] = c['limit'] / 3.0 / draw(S([0.5, 1.5, 20.5, 150.5, 299.5, 301.5, 310.5,
                                               350.5, 401.5, 402.5, 404.5, 450.5]))
    return c


@st.composite
def large(draw):
    """5000 rows and more, few of them distinct: the aggressive mode."""
    c = draw(cases())
    c['rep'] = -(-draw(I(5000, 5100)) // len(c['X']))
    c['d'] = draw(S([2, 2, 3]))
    c['noise'] = draw(I(2, 9))
    c['iters'] = draw(S([1, 2, 4]))
    # readings until the preprocessing limit strikes, mostly after the first trees
    c['limit'] = 900
    c['tick'] = 300 / draw(S([40.5, 304.5, 306.5, 420.5, 10000.5, 5e6, 5e6, 5e6]))
    return c


@st.composite
def deep(draw):
    """Depth 5 and 6: few candidates per node, most nodes unused by CART."""
    c = draw(cases(clock=True))
    c['d'] = draw(S([5, 5, 6]))
    c['iters'] = draw(S([1, 1, 2]))
    c['limit'] = 600
    # few reference trees; training ends while or soon after pricing starts
    c['tick'] = 200 / draw(S([5.5, 8.5, 20.5, 60.5]))
    return c


def expand(c):
    if 'rep' not in c:
        return c
    k = max(c['y']) + 1
    X, y = [], []
    for j in range(c['rep']):
        for i, (x, t) in enumerate(zip(c['X'], c['y'])):
            X.append(x)
            y.append((t + 1) % k if (j * 7 + i * 3) % (c['noise'] + i % 3) == 1 else t)
    return dict(c, X=X, y=y)


def write(path, c, X, y):
    lab = c['labels']
    with open(path, 'w', newline='') as f:
        w = csv.writer(f, delimiter=c['sep'])
        if c['header'] != 'none':
            w.writerow(['col %d' % j for j in range(len(X[0]))] + ['class'])
        for x, t in zip(X, y):
            w.writerow([int(v) if c['ints'] and v == int(v) else repr(v) for v in x]
                       + [lab[t]])


def opt(c, short, long):
    return '--' + long if c['long'] else '-' + short


def args_of(c, tr, te):
    out = [opt(c, 'T', 'train_file'), tr, opt(c, 't', 'test_file'), te,
           opt(c, 'd', 'depth'), str(c['d'])]
    if c['sep'] != ',':
        out += [opt(c, 'S', 'sep'), c['sep']]
    if c['header'] != 'default':
        out += [opt(c, 'H', 'header'), '0' if c['header'] == 'zero' else '-1']
    if c['iters'] is not None:
        out += [opt(c, 'i', 'iterations'), str(c['iters'])]
    if c['limit'] is not None:
        out += [opt(c, 's', 'time_limit'), str(c['limit'])]
    if c['dir']:
        out += [opt(c, 'r', 'results_dir'), c['dir']]
    return out


class Spy:
    """Captures the classifier and counts its master's solves and columns."""

    def __init__(self, c):
        self.user = c['limit'] if c['limit'] is not None else 600

    def __enter__(self):
        self.made, self.solves, self.cols = [], 0, 0
        self.base = exp.DTreeClassifier
        me = self

        class Captured(self.base):
            def __init__(self, *a, **k):
                super().__init__(*a, **k)
                me.made.append(self)
                if me.user > 0 >= self.time_limit and CLOCK.virtual and \
                        CLOCK.now - 1000.0 >= me.user:
                    raise Known('limit-used-up', 'time limit %s given, all of it used by '
                                'the preprocessing, the training has the limit %s'
                                % (me.user, self.time_limit))
        exp.DTreeClassifier = Captured
        mp = sut.DTreeMasterProblem
        self.old = (mp.solve_rmp, mp.add_column)
        solve, add = self.old

        def solve_rmp(obj, *a, **k):
            me.solves += 1
            return solve(obj, *a, **k)

        def add_column(obj, *a, **k):
            out = add(obj, *a, **k)
            me.cols += bool(out)
            return out
        mp.solve_rmp, mp.add_column = solve_rmp, add_column
        return self

    def __exit__(self, *a):
        exp.DTreeClassifier = self.base
        sut.DTreeMasterProblem.solve_rmp, sut.DTreeMasterProblem.add_column = self.old


def run(c):
    old = os.getcwd()
    tmp = tempfile.mkdtemp(prefix='verif-c25-')
    try:
        os.makedirs(os.path.join(tmp, 'results', c['dir']))
        os.makedirs(os.path.join(tmp, 'in'))
        tr, te = os.path.join(tmp, 'in', 'train data.csv'), os.path.join(tmp, 'in', 'te.csv')
        write(tr, c, c['X'], c['y'])
        write(te, c, c['T'], c['ty'])
        os.chdir(tmp)
        with Spy(c) as spy:
            if c['tick']:
                CLOCK.start(tick=c['tick'])
            try:
                exp.main(args_of(c, tr, te))
            except ValueError as e:
                if 'previously unseen labels' in str(e) and text_like_numbers(c):
                    raise Known('numeric-looking-labels', 'text labels, those of the test '
                                'file all look like numbers: %s' % e) from e
                raise
            CLOCK.stop()
        files = sorted(os.path.relpath(os.path.join(d, f), tmp)
                       for d, _, fs in os.walk(tmp) for f in fs)
        want = os.path.join('results', c['dir'], 'T_train data.csv_d_%d_results.csv' % c['d'])
        need(files == sorted(['in/te.csv', 'in/train data.csv', want]),
             'files after the run: %s, expected %s', files, want)
        with open(want, newline='') as f:
            rows = list(csv.DictReader(f))
        return rows, spy
    finally:
        CLOCK.stop()
        os.chdir(old)
        shutil.rmtree(tmp, ignore_errors=True)


def number(v):
    try:
        float(v)
        return True
    except ValueError:
        return False


def text_like_numbers(c):
    lab = c['labels']
    return not all(number(lab[t]) for t in c['y']) and all(number(lab[t]) for t in c['ty'])


def acc(pred, y):
    return sum(int(a == b) for a, b in zip(pred, y)) / len(y)


def near(text, v, what):
    need(text not in (None, '') and abs(float(text) - v) < 1e-9, '%s: reported %s, is %r',
         what, text, v)


def check(c, rec):
    c = expand(c)
    lab = c['labels']
    enc = LabelEncoder().fit([lab[t] for t in c['y']])
    y = enc.transform([lab[t] for t in c['y']])
    ty = enc.transform([lab[t] for t in c['ty']])
    X, T = np.array(c['X'], dtype=float), np.array(c['T'], dtype=float)
    cart = DecisionTreeClassifier(max_depth=c['d'], random_state=99).fit(X, y)
    if cart.tree_.node_count < 3:
        raise Skip('CART makes no split')
    rows, spy = run(c)
    need(len(rows) == 2 and [r['name'] for r in rows] == ['CART', 'CG1'],
         'result rows %s', [r.get('name') for r in rows])
    a, b = rows
    near(a['train_accuracy'], acc(cart.predict(X), y), 'CART training accuracy')
    near(a['test_accuracy'], acc(cart.predict(T), ty), 'CART test accuracy')
    need(len(spy.made) >= 1, 'no classifier was trained')
    clf = spy.made[-1]
    assign, target = {}, {}
    # Initial paths over splits that are no candidates (recorded finding).
    bad = any(s not in clf.nodes[n].candidate_splits for p in clf.initial_paths
              for n, s in sut.assign_of(p).items())
    rec.lab(bad, 'initial path over a split that is no candidate')
    for p in attr(clf.master_problem, 'selected_paths'):
        for n, s in sut.assign_of(p).items():
            if bad and assign.get(n, s) != s:
                raise Known('initial-paths', 'initial paths over splits that are no '
                            'candidates: node %d has the splits %d and %d' % (n, assign[n], s))
            need(assign.setdefault(n, s) == s, 'node %d has the splits %d and %d', n,
                 assign[n], s)
        target[p.leaf_id] = p.target
    sp = [(s.feature, s.threshold) for s in clf.splits]

    def tree(M):
        return [target[ref.walk(x, c['d'], assign, sp)] for x in M]
    near(b['train_accuracy'], acc(tree(c['X']), y), 'column generation training accuracy')
    near(b['test_accuracy'], acc(tree(c['T']), ty), 'column generation test accuracy')
    need(float(b['train_accuracy']) >= float(a['train_accuracy']) - 1e-9,
         'training accuracy %s below that of CART %s', b['train_accuracy'],
         a['train_accuracy'])
    need(int(b['total_iterations']) == spy.solves, '%s iterations reported, %d master solves',
         b['total_iterations'], spy.solves)
    cols = clf.num_col_added_sp_
    need(int(b['sp_cols_added_heuristic']) == sum(cols[0]) and
         int(b['sp_cols_added_ip']) == sum(cols[1]) and
         sum(cols[0]) + sum(cols[1]) == spy.cols,
         'reported columns %s + %s, counted by the classifier %s, accepted %d',
         b['sp_cols_added_heuristic'], b['sp_cols_added_ip'], cols, spy.cols)
    need(int(b['num_improving_iter']) == clf.num_improving_iter_, '%s improving iterations '
         'reported, %d counted', b['num_improving_iter'], clf.num_improving_iter_)
    rate = float(b['heuristic_hit_rate'])
    need(0 <= rate <= 1 and (rate > 0) == (sum(cols[0]) > 0),
         'heuristic hit rate %s with %d heuristic columns', rate, sum(cols[0]))
    for k in ('preprocessing_time', 'training_time', 'master_time', 'sp_time_heuristic',
              'sp_time_ip', 'master_ip_time', 'col_add_time'):
        need(float(b[k]) >= 0, '%s is %s', k, b[k])
    parts = sum(float(b[k]) for k in ('master_time', 'sp_time_heuristic', 'sp_time_ip',
                                      'master_ip_time', 'col_add_time'))
    need(parts <= float(b['training_time']) + 0.05, 'the parts of the training took %g s, '
         'the whole %s s', parts, b['training_time'])
    if c['iters'] is not None and c['iters'] > 0:
        need(spy.solves <= c['iters'], '%d iterations, limit %d', spy.solves, c['iters'])
    user = c['limit'] if c['limit'] is not None else 600
    got = attr(clf, 'time_limit')
    if user > 0:
        need(0 < got <= user, 'time limit %s given, the training had the limit %s', user, got)
        pre = float(b['preprocessing_time'])
        need(got <= max(user - pre, 0.01) + 1e-6, 'time limit %s, preprocessing took %s, the '
             'training had the limit %s', user, pre, got)
    else:
        need(got <= 0, 'no time limit given, the training had the limit %s', got)
    share = max(np.bincount(y)) / len(y)
    t = float(b['train_accuracy'])
    rec.lab(t > float(a['train_accuracy']), 'better than CART')
    rec.lab(spy.cols, 'columns added')
    rec.lab(clf.time_limit_reached_, 'training limit struck')
    rec.lab(user > 0 and float(b['preprocessing_time']) > user / 3.0, 'preprocessing limit struck')
    rec.label('depth %d' % c['d'], 'sep %r' % c['sep'], 'header ' + c['header'])
    rec.nt(c['d'] > 1 and share < t < 1 and (spy.cols or c['tick']))


CAMPAIGNS = [
    Campaign('run', cases(), check, quick=130),
    Campaign('clock', cases(clock=True), check, quick=130),
    Campaign('large', large(), check, quick=24, thorough=160),
    Campaign('deep', deep(), check, quick=40, thorough=160),
]
