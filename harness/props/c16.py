import random

from hypothesis import strategies as st
import numpy as np

from boot import CLOCK
import gen
import ref
import sut
from core import Campaign, attr, need
from gen import I, S
from props import trees
from props.c08 import Bound
from props.c11 import rows_for
from sut import DTreeClassifier, DTreeMasterProblem

RULE = ('Complete fits of DTreeClassifier on generated data, candidates and initial '
        'trees (a bad first tree on purpose), both kinds of exact subproblems, raw / '
        'annotated / merged rows, lazy rows and generated cuts, with and without '
        'iteration limit. Non-trivial: depth >= 2, the best initial tree is not the '
        'best tree over the candidates, and columns were added.')
ASSUMPTIONS = ['Best tree over the candidates by brute force, LP over all candidate '
               'paths by scipy HiGHS. Dual feasibility and the LP value are only '
               'judged when every last CP-SAT pricing call proved optimality.']


@st.composite
def cases(draw, plain=True):
    c = draw(gen.tree_with_paths(max_rows=14, min_rows=4, depths=(1, 2, 2, 2, 2, 3),
                                 max_splits=5, trees=2, wide_cands=True, min_splits=2))
    c['old'] = draw(S([False, False, True]))
    c['rowmode'] = draw(S(['own', 'own', 'normal', 'aggressive', 'plain']))
    c['iters'] = draw(S([-1, -1, -1, 0, 1, 2, 3, 5]))
    c['rseed'] = draw(I(0, 10 ** 6))
    c['solver'] = draw(S(['glop', 'glop', 'clp']))
    c['lazy'] = c['gen'] = False
    c['rounds'] = draw(S([1, 3]))
    if not plain:
        c['lazy'], c['gen'] = draw(S([[True, False], [True, True], [False, True]]))
        c['rounds'] = draw(S([1, 3, 10]))
    c['thin'] = draw(S([0, 0, 1])) if plain else draw(S([0, 1, 1]))
    return c


@st.composite
def mixed(draw):
    """Few rows over many binary features: the LP mixes trees, so cuts appear."""
    nf = draw(I(4, 6))
    m = draw(I(6, 12))
    X = [[float(v >> j & 1) for j in range(nf)]
         for v in (draw(I(0, 2 ** nf - 1)) for _ in range(m))]
    y = [draw(I(0, 1)) for _ in range(m)]
    y[0], y[1] = 0, 1
    splits = [[f, 0.5] for f in range(nf)]
    cands = [list(draw(st.permutations(range(nf))))[:draw(I(nf - 1, nf))]
             for _ in range(3)]
    return {'d': 2, 'X': X, 'y': y, 'splits': splits, 'cands': cands,
            'trees': [gen.tree_assign(draw, cands)], 'old': draw(S([False, False, True])),
            'rowmode': draw(S(['own', 'aggressive'])), 'iters': draw(S([-1, -1, 25])),
            'rseed': draw(I(0, 10 ** 6)), 'solver': 'glop', 'lazy': draw(gen.B),
            'gen': True, 'rounds': draw(S([1, 3, 10])), 'thin': 1}


@st.composite
def large_cases(draw):
    return {'big': draw(gen.big_tree(depths=(1, 2, 2, 2), m=(25, 90), nf=(2, 8), ns=(4, 14),
                                     nc=(4, 9))),
            'old': draw(S([False, False, True])),
            'rowmode': draw(S(['own', 'aggressive', 'aggressive', 'normal'])),
            'iters': draw(S([-1, -1, 2, 6])), 'rseed': draw(I(0, 10 ** 6)),
            'solver': draw(S(['glop', 'glop', 'clp'])), 'lazy': draw(S([False, False, True])),
            'gen': draw(S([False, False, True])), 'rounds': draw(S([1, 5])),
            'thin': draw(S([0, 0, 1])), 'nt': draw(I(1, 3))}


def expand(c):
    out, _ = gen.expand_tree(c['big'], trees=c['nt'])
    out.update({k: v for k, v in c.items() if k != 'big'})
    return out


class Watch(Bound):
    """Also records what the master reports."""

    def __init__(self, limit):
        super().__init__(DTreeMasterProblem, limit)
        self.cuts = []
        self.duals = None

    def __enter__(self):
        super().__enter__()
        inner = self.cls.solve_rmp
        me = self

        def solve_rmp(obj, *a, **k):
            out = inner(obj, *a, **k)
            me.duals = out
            me.cuts += [[bool(v) for v in cut] for cut in out[4]]
            return out
        self.cls.solve_rmp = solve_rmp
        return self


@st.composite
def timed(draw):
    """A time limit on the virtual clock strikes anywhere."""
    c = draw(cases(plain=draw(gen.B)))
    c['iters'] = draw(S([-1, -1, 0, 4]))
    c['limit'] = draw(S([1, 2.5, 5, 10, 20, 40, 80, -1, 0]))
    c['tick'] = draw(S([1.0, 0.5, 0.25, 0.0]))
    return c


def build(c, t, init):
    return DTreeClassifier(
        init, t.leaves, t.nodes, t.splits, tree_depth=t.depth,
        targets=sut.listed(t.td.classes, t.td.n), max_iterations=c['iters'], time_limit=c.get('limit', -1),
        num_master_cuts_round=c['rounds'],
        master_beta_constraints_as_cuts=c['lazy'], master_generate_cuts=c['gen'],
        data_rows=rows_for(c['rowmode'], t), use_old_sp=c['old'],
        master_solver_type=c['solver'])


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t = sut.TreeSUT(c)
    td = t.td
    init = [p for a in c['trees'] for p in t.tree_paths(a)]
    start = [(p.leaf_id, sut.assign_of(p), p.cost) for p in init]
    random.seed(c['rseed'])
    clf = build(c, t, init)
    if c['thin']:
        # one heuristic column per round: more rounds, more cuts
        heur = clf.subproblems[0][0]
        orig = heur.generate_columns
        heur.generate_columns = lambda *a, **k: orig(*a, **k)[:1]
    every = [(l, a, td.majority(td.rows(l, a))) for l in range(2 ** t.depth)
             for a in td.paths(l)]
    with Watch(200 + 3 * len(every) * len(td.classes)) as w:
        if 'tick' in c:
            with CLOCK:
                CLOCK.start(tick=c['tick'])
                clf.fit(t.X, t.y)
        else:
            clf.fit(t.X, t.y)
    good = int(np.sum(clf.predict(t.X) == t.y))
    sel = attr(clf.master_problem, 'selected_paths')
    cost = sum(p.cost for p in sel)
    need(abs(cost - good) < 1e-4, '%d rows classified correctly, selected paths cost %g',
         good, cost)
    first = ref.best_selection(td, start)
    need(good >= first, '%d rows correct, the best tree of the initial paths has %d', good,
         first)
    best = td.best_tree()
    need(good <= best, '%d rows correct, no tree over the candidates has more than %d', good,
         best)
    optimal = bool(attr(clf, 'mp_optimal_'))
    late = bool(attr(clf, 'time_limit_reached_'))
    need(not late or c.get('limit', -1) > 0, 'time limit reached without a time limit')
    need(not late or not optimal, 'optimal although the time limit was reached')
    rec.lab(late, 'time limit reached')
    if c['iters'] <= 0 and not late:
        need(optimal, 'fit without limits ended without mp_optimal_')
    known = trees.Known(td)
    if optimal:
        proven = c['old'] or all(
            not attr(sp, 'gaps_') or attr(sp, 'gaps_')[-1] == 0 or
            attr(sp, 'solve_times_')[-1] < 0.9
            for sp in clf.subproblems[1])
        rec.lab(not proven, 'pricing not proven optimal')
        lp = trees.objective(w.duals)
        need(good <= lp + ref.TOL * max(1, lp), '%d rows correct, final LP value %g', good,
             lp)
        if proven:
            for q in every:
                known.add(*q)
            trees.feasible(known, w.duals, w.cuts, 'claimed optimal')
            if not c['lazy'] and not c['gen']:
                full = ref.path_lp(td, every)
                need(ref.close(lp, full), 'claimed optimal: LP value %g, the LP over all '
                     'candidate paths has %g', lp, full)
                rec.lab(full > best + 1e-6, 'gap between LP and best tree')
        rec.label('optimal')
    else:
        # columns may have been added after the last solve
        duals = clf.master_problem.solve_rmp('')
        lp = trees.objective(duals)
        need(good <= lp + ref.TOL * max(1, lp), '%d rows correct, final LP value %g', good,
             lp)
        rec.label('limit reached')
    cols = sum(sum(x) for x in clf.num_col_added_sp_)
    rec.lab(cols, 'columns added')
    rec.lab(clf.num_col_added_sp_[1] and sum(clf.num_col_added_sp_[1]), 'exact columns added')
    rec.lab(w.count > 10, 'more than 10 rounds')
    rec.lab(w.cuts, 'cuts generated')
    rec.lab(good > first, 'better than initial')
    rec.label('old pricing' if c['old'] else 'sat pricing', 'rows ' + c['rowmode'],
              'depth %d' % t.depth)
    rec.nt(t.depth > 1 and first < best and cols)


CAMPAIGNS = [
    Campaign('plain', cases(), check, quick=480),
    Campaign('cut-modes', cases(plain=False), check, quick=320),
    Campaign('fractional', mixed(), check, quick=240),
    Campaign('timed', timed(), check, quick=240),
    Campaign('large', large_cases(), check, quick=64),
]
