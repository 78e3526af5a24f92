from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, Violation, attr, need
from gen import I, S
from props.c04 import dual_check
from props.c07 import rule_of
from sut import (BooleanDecisionRuleClassifier,
                 BooleanDecisionRuleClassifierWithHeuristic, binary_X)
import numpy as np

RULE = ('Complete fits of both boolean-rule classifiers on generated 0/1 data, C, p, '
        'solvers, with and without iteration limit. Non-trivial: at least one clause '
        'beyond the initial one was needed (LP optimum over all clauses is better '
        'than all negative) and the fit ran at least two rounds.')
ASSUMPTIONS = ['LP over all clauses of at most C features solved by scipy HiGHS. '
               'The final duals are read with solve_rmp after fit.']


@st.composite
def cases(draw, limited=False):
    c = draw(gen.rule_data(max_n=6, max_m=20))
    c['C'] = draw(S([1, 2, 3, 4, 5, 6, 8, 10]))
    c['p'] = draw(S(gen.PVALS))
    c['heur'] = draw(gen.B)
    c['lp'] = draw(S(['glop', 'glop', 'glop', 'clp']))
    c['sp'] = draw(S(['cbc', 'cbc', 'cbc', 'scip']))
    c['iters'] = draw(I(1, 4)) if limited else draw(S([-1, -1, 0]))
    return c


class Bound:
    """Every iteration but the last adds a new clause, so the number of master
    solves is bounded. A fit beyond the bound does not terminate."""

    def __init__(self, cls, limit):
        self.cls, self.limit, self.count = cls, limit, 0

    def __enter__(self):
        self.orig = orig = self.cls.solve_rmp
        me = self

        def solve_rmp(obj, *a, **k):
            me.count += 1
            if me.count > me.limit:
                raise Violation('fit does not terminate: %d master solves' % me.count)
            return orig(obj, *a, **k)
        self.cls.solve_rmp = solve_rmp
        return self

    def __exit__(self, *a):
        self.cls.solve_rmp = self.orig


def build(c):
    cls = (BooleanDecisionRuleClassifierWithHeuristic if c['heur']
           else BooleanDecisionRuleClassifier)
    return cls(max_iterations=c['iters'], C=c['C'], p=c['p'], rmp_solver=c['lp'],
               subproblem_solver=c['sp'])


@st.composite
def big_cases(draw):
    return {'big': draw(gen.big_rule(n=(6, 9), m=(20, 60), many_n=6)), 'C': draw(I(4, 16)),
            'p': draw(S(gen.PVALS)), 'heur': draw(gen.B),
            'lp': draw(S(['glop', 'glop', 'clp'])), 'sp': 'cbc',
            'iters': draw(S([-1, -1, -1, 5, 12]))}


def check(c, rec):
    if 'big' in c:
        c = dict(c, **gen.expand_rule(c['big'])[0])
    X = binary_X(c['rows'], c['n'])
    y = np.array(c['y'])
    clf = build(c)
    every = ref.all_clauses(c['n'], c['C'])
    with Bound(sut.BDRMasterProblem, len(every) + 3) as b:
        clf.fit(X, y)
    rounds = b.count
    rule = rule_of(clf.master_problem)
    need(ref.complexity(rule) <= c['C'], 'complexity %d of %s exceeds %d',
         ref.complexity(rule), rule, c['C'])
    allneg = c['p'] * sum(c['y'])
    cost = ref.rule_cost(c['rows'], c['y'], rule, c['p'])
    need(cost <= allneg + ref.TOL * max(1, allneg),
         'rule %s costs %g, predicting all negative %g', rule, cost, allneg)
    optimal = attr(clf, 'mp_optimal_')
    if c['iters'] <= 0:
        need(bool(optimal), 'fit without limits ended without mp_optimal_')
    full = ref.rule_lp(c['rows'], c['y'], every, c['C'], c['p'])
    need(cost >= full - ref.TOL * max(1, abs(full)),
         'rule costs %g, less than the LP bound %g', cost, full)
    if optimal:
        duals = clf.master_problem.solve_rmp('')
        dual_check(c['rows'], c['y'], every, c['C'], c['p'], duals, full,
                   'over all clauses')
        rec.label('optimal')
        rec.lab(c['iters'] > 0, 'optimal under a limit')
    else:
        rec.label('limit reached')
    rec.lab(cost > full + 1e-6, 'integrality gap')
    rec.lab(rounds > 3, 'more than 3 rounds')
    rec.label('heuristic' if c['heur'] else 'exact only')
    rec.nt(full < allneg - 1e-6 and rounds >= 2)


CAMPAIGNS = [
    Campaign('unlimited', cases(), check, quick=4800),
    Campaign('limited', cases(limited=True), check, quick=1600),
    Campaign('large', big_cases(), check, quick=120),
]
