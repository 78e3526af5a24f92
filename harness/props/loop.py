"""Scripted master and subproblems, and the recorded trace of fit (C01, C02)."""
from hypothesis import strategies as st

import gen
from boot import CLOCK
from core import Violation
from gen import I, S
from sut import BaseMasterProblem, BaseSubproblem, ColGenClassifier
import numpy as np


# what solve_rmp answers: a new object each time, one object rewritten in place,
# or always the same value
DUALS = ['new', 'new', 'new', 'rewritten', 'same', 'none']
CONTAINERS = ['array', 'array', 'list', 'int', 'float32', 'fortran']


@st.composite
def cases(draw, timed=False, long=False):
    levels = draw(st.lists(I(1, 3), min_size=1, max_size=4))
    if gen.chance(draw, 1, 12):
        levels[draw(I(0, len(levels) - 1))] = 0
    if sum(levels) == 0:
        levels = [1]
    if not long and gen.chance(draw, 1, 60):
        # nothing to price at all
        levels = draw(S([[], [0], [0, 0]]))
    quiet = draw(S([1, 1, 3, 6]))      # how rarely a subproblem has columns
    reject = draw(S([0, 2, 5]))     # how often the master refuses (of 6)

    def dur(hi=4):
        return draw(I(0, hi)) / 2.0 if timed else 0.0

    def script():
        its = []
        for _ in range(draw(I(0, 6)) or draw(I(0, 6))):
            sps = []
            for n in levels:
                lev = []
                for _ in range(n):
                    cols = []
                    if draw(I(0, quiet)) == quiet:
                        for _ in range(draw(I(1, 4))):
                            cols.append([0 if draw(I(0, 5)) < reject else 1, dur(2)])
                    sp = {'upd': dur(2), 'price': dur(), 'cols': cols}
                    if len(cols) > 1 and gen.chance(draw, 1, 5):
                        # the same column object again, anywhere in the list
                        sp['again'] = [draw(I(0, len(cols) - 1)) for _ in range(draw(I(1, 2)))]
                    lev.append(sp)
                sps.append(lev)
            if long:
                # something is accepted in every iteration
                lev = draw(S([v for v in sps if v]))
                lev[draw(I(0, len(lev) - 1))]['cols'].append([1, dur(2)])
            its.append({'solve': dur(), 'improved': draw(I(0, 1)), 'sps': sps})
        return its
    fits = []
    for _ in range(2 if gen.chance(draw, 1, 4) else 1):
        fits.append({'its': script(), 'gen': dur(2), 'ip': dur(),
                     'y': draw(st.lists(I(0, 2), min_size=2, max_size=5).filter(
                         lambda v: len(set(v)) > 1)),
                     'labels': draw(S([[0, 1, 2], [5, 9, 11], [-3, 0, 4],
                                       ['a', 'b', 'c']]))})
    resets = []
    if timed and gen.chance(draw, 2 if long else 1, 4 if long else 5):
        resets = draw(st.lists(I(1, draw(S([4, 30, 60, 60])) if long else 4), max_size=3,
                               unique=True))
    return {'levels': levels, 'fits': fits,
            'iters': draw(S([-1, -1, -1, 20, 37, 100] if long
                            else [-1, -1, -1, -1, 0, 1, 2, 3, 5, 6])),
            'limit': draw(S([-1, 0])) if not timed or gen.chance(draw, 2 if long else 1, 4)
            else draw(I(0, draw(S([24, 100, 1000])) if long else 24)) + 0.25,
            'ip': draw(S([True, True, False])),
            'params': draw(S([0, 1, 1, 2])), 'X': draw(S(CONTAINERS)),
            'resets': resets, 'duals': draw(S(DUALS)),
            'reset_attr': draw(gen.B),
            'rep': draw(I(2, 60)) if long else 1,
            'mult': draw(S([1, 1, 2, 7, 40])) if long else 1}


def script_of(case, fit):
    """The iterations of a fit, with the repetitions written out."""
    if case['mult'] == 1:
        return fit['its'] * case['rep']
    return [dict(it, sps=[[dict(sp, cols=sp['cols'] * case['mult']) for sp in lev]
                          for lev in it['sps']]) for it in fit['its']] * case['rep']


def params_of(case, level, pos):
    if case['params'] == 0:
        return ''
    return 'sp %d.%d' % (level, pos) if case['params'] == 1 else 'level %d' % level


def copied(duals):
    return list(duals) if isinstance(duals, list) else duals


class Trace:
    def __init__(self):
        self.ev = []

    def add(self, kind, t0, **kw):
        kw.update(kind=kind, t0=t0, t1=CLOCK.now)
        self.ev.append(kw)


class Column:
    def __init__(self, key):
        self.key = key


class Master(BaseMasterProblem):
    def __init__(self):
        self.solver_ = None

    def start(self, case, fit, trace):
        self.case, self.f, self.trace = case, dict(fit, its=script_of(case, fit)), trace
        if case['reset_attr'] or case['resets']:
            self.reset_timer_ = False
        self.solves = 0
        self.generated_ = False

    def it(self):
        i = self.solves - 1
        return self.f['its'][i] if 0 <= i < len(self.f['its']) else None

    def generate_mp(self, X, y):
        t = CLOCK.now
        CLOCK.advance(self.f['gen'])
        self.trace.add('gen', t, X=X, y=list(np.asarray(y).tolist()))

    def solve_rmp(self, solver_params=''):
        t = CLOCK.now
        self.solves += 1
        if self.solves > len(self.f['its']) + 2:
            raise Violation('iteration %d although the scripted subproblems have no '
                            'column since iteration %d' % (
                                self.solves, len(self.f['its']) + 1))
        it = self.it()
        CLOCK.advance(it['solve'] if it else 0.0)
        kind = self.case['duals']
        if kind == 'rewritten':
            if self.solves == 1:
                self.duals = []
            self.duals[:] = ['duals', self.solves]
            duals = self.duals
        else:
            duals = {'new': ('duals', self.solves), 'same': ('duals',), 'none': None}[kind]
        if self.solves in self.case['resets']:
            self.reset_timer_ = True
        self.trace.add('solve', t, duals=copied(duals), params=solver_params)
        return duals

    def rmp_objective_improved(self):
        it = self.it()
        return bool(it and it['improved'])

    def add_column(self, column):
        t = CLOCK.now
        ok, d = column.key[4], column.key[5]
        CLOCK.advance(d)
        self.trace.add('add', t, key=column.key, ok=bool(ok))
        return bool(ok)

    def solve_ip(self, solver_params=''):
        t = CLOCK.now
        CLOCK.advance(self.f['ip'])
        self.trace.add('ip', t, params=solver_params)
        return True


class Sub(BaseSubproblem):
    def __init__(self, master, level, pos):
        self.master, self.level, self.pos = master, level, pos

    def here(self):
        it = self.master.it()
        return it['sps'][self.level][self.pos] if it else None

    def update_subproblem(self, X, y, dual_costs):
        t = CLOCK.now
        h = self.here()
        CLOCK.advance(h['upd'] if h else 0.0)
        self.master.trace.add('update', t, sp=(self.level, self.pos), duals=copied(dual_costs),
                              X=X, y=list(np.asarray(y).tolist()))

    def generate_columns(self, X, y, dual_costs, params=''):
        t = CLOCK.now
        h = self.here()
        CLOCK.advance(h['price'] if h else 0.0)
        cols = []
        if h:
            for k, (ok, d) in enumerate(h['cols']):
                cols.append(Column((self.master.solves, self.level, self.pos, k, ok, d)))
            cols += [cols[k] for k in h.get('again', []) if k < len(cols)]
        self.master.trace.add('price', t, sp=(self.level, self.pos), duals=copied(dual_costs),
                              X=X, y=list(np.asarray(y).tolist()),
                              keys=[c.key for c in cols], params=params)
        return cols


class RunResult:
    pass


DEFAULTS = {'params': 0, 'X': 'array', 'resets': [], 'reset_attr': False, 'rep': 1, 'mult': 1,
            'duals': 'new'}


def run(case):
    """Runs the fits of the case; one result per fit."""
    master = Master()
    subs = [[Sub(master, l, p) for p in range(n)]
            for l, n in enumerate(case['levels'])]
    clf = ColGenClassifier(
        max_iterations=case['iters'], time_limit=case['limit'],
        master_problem=master, subproblems=subs, rmp_is_ip=case['ip'],
        rmp_solver_params='rmp' if case['params'] else '',
        master_ip_solver_params='ip' if case['params'] else '',
        subproblem_params=[[params_of(case, l, p) for p in range(n)]
                           for l, n in enumerate(case['levels'])])
    out = []
    for fit in case['fits']:
        tr = Trace()
        master.start(case, fit, tr)
        X = np.array([[float(i), float(t)] for i, t in enumerate(fit['y'])])
        y = np.array([fit['labels'][t] for t in fit['y']])
        names = sorted(set(fit['labels'][t] for t in fit['y']))
        r = RunResult()
        r.X, r.enc = X, [names.index(fit['labels'][t]) for t in fit['y']]
        with CLOCK:
            CLOCK.start(at=1000.0)
            r.start = CLOCK.now
            r.ret = clf.fit(container(case['X'], X), y)
            r.end = CLOCK.now
        r.ev, r.clf = tr.ev, clf
        r.stats = {k: getattr(clf, k, None) for k in (
            'performed_iter_', 'iter_', 'num_improving_iter_', 'mp_optimal_',
            'num_col_added_sp_', 'time_spent_sp_', 'time_spent_master_',
            'time_add_col_', 'time_limit_reached_', 'time_spent_master_ip_',
            'time_elapsed_')}
        for k in ('num_col_added_sp_', 'time_spent_sp_'):
            if r.stats[k] is not None:
                r.stats[k] = [list(v) for v in r.stats[k]]
        r.fit = master.f
        out.append(r)
    return out


def container(kind, X):
    if kind == 'list':
        return X.tolist()
    if kind == 'int':
        return X.astype(int)
    if kind == 'float32':
        return X.astype(np.float32)
    return np.asfortranarray(X) if kind == 'fortran' else X


def rounds(ev):
    """Events between master solves: [[solve, ...], ...]."""
    out = []
    for e in ev:
        if e['kind'] == 'solve':
            out.append([e])
        elif out and e['kind'] != 'ip':
            out[-1].append(e)
    return out


def order(levels):
    return [(l, p) for l, n in enumerate(levels) for p in range(n)]
