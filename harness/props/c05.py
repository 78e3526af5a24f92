from hypothesis import strategies as st

import gen
import ref
from core import Campaign, Skip, need
from gen import I, S
from sut import BDRSubProblem, binary_X
import numpy as np

RULE = ('0/1 data, D, solver, and a sequence of 1-6 dual vectors (fresh, or an '
        'earlier one permuted or slightly changed) priced by one '
        'subproblem object. Non-trivial: at least two pricings, at least one with '
        'an improving clause.')
ASSUMPTIONS = ['Reduced costs are multiples of 1/8 (or generic floats); optimality is '
               'required up to 1e-4 relative (MIP gap of the solvers) and a column '
               'is required only if the best reduced cost is below -1e-4.']


@st.composite
def cases(draw):
    c = draw(gen.rule_data(max_n=6, max_m=12))
    npos = sum(c['y'])
    c['D'] = draw(I(1, 8))
    c['solver'] = draw(S(['cbc', 'cbc', 'cbc', 'scip', 'sat']))
    duals = []
    for _ in range(draw(I(1, 6))):
        if duals and draw(I(0, 2)) == 0:
            lam, mu = draw(S(duals))
            if draw(I(0, 3)) == 0:
                lam = gen.eighth(draw, 2)
            duals.append([lam, gen.vary(draw, mu)])
            continue
        hi = draw(S([1, 2, 4, 12]))
        kind = draw(S(['eighth', 'eighth', 'float', 'zero']))
        if kind == 'zero':
            duals.append([0.0, [0.0] * npos])
        elif kind == 'eighth' or c['solver'] == 'sat':
            duals.append([gen.eighth(draw, draw(S([0, 1, 1, 4])), zero=2),
                          [gen.eighth(draw, hi) for _ in range(npos)]])
        else:
            f = st.floats(0, hi, allow_subnormal=False)
            duals.append([draw(st.floats(0, 1, allow_subnormal=False)),
                          [draw(f) for _ in range(npos)]])
    # duals for which the best clause is only just improving
    for k in range(len(duals)):
        if c['solver'] != 'sat' and gen.chance(draw, 1, 4):
            duals[k] = nearly(c, duals[k], draw(S([0.0005, 0.002, 0.008, 0.03])))
    c['duals'] = duals
    return c


def nearly(c, duals, gap):
    """Raises the complexity dual until the best reduced cost is -gap."""
    lam, mu = duals
    clauses = ref.all_clauses(c['n'], c['D'])
    base = [(ref.reduced_cost(c['rows'], c['y'], cl, 0.0, mu), 1 + len(cl)) for cl in clauses]
    top = max((-gap - b) / k for b, k in base)
    return [top, mu] if top > 0 else duals


def check(c, rec):
    X = binary_X(c['rows'], c['n'])
    y = np.array(c['y'])
    sp = BDRSubProblem(c['D'], c['solver'])
    clauses = ref.all_clauses(c['n'], c['D'])
    improving = 0
    for k, (lam, mu) in enumerate(c['duals']):
        got = sp.generate_columns(X, y, (lam, list(mu)), '')
        best = min(ref.reduced_cost(c['rows'], c['y'], cl, lam, mu)
                   for cl in clauses)
        need(isinstance(got, (list, tuple)), 'no list returned: %r', got)
        tol = ref.TOL * max(1.0, abs(best))
        if best < -tol:
            need(len(got) > 0, 'call %d: no column although the best reduced cost is %g',
                 k, best)
            improving += 1
            rec.lab(best > -0.05, 'hardly improving')
            rec.lab(k > 0, 'improving after another call')
        if best > -1e-7:
            need(len(got) == 0, 'call %d: column %s although the best reduced cost is %g',
                 k, got, best)
            rec.label('no improving')
        if len(got):
            # "returns a clause of minimum reduced cost"
            costs = []
            for cl in got:
                cl = [int(j) for j in cl]
                need(len(set(cl)) == len(cl) and all(0 <= j < c['n'] for j in cl),
                     'not a clause: %s', cl)
                need(len(cl) <= c['D'], 'clause %s longer than %d', cl, c['D'])
                rc = ref.reduced_cost(c['rows'], c['y'], cl, lam, mu)
                need(rc < 1e-6, 'call %d: clause %s has reduced cost %g', k, cl, rc)
                costs.append(rc)
                rec.lab(len(cl) == c['D'], 'length D')
                rec.lab(len(cl) == 0, 'empty clause returned')
                rec.lab(len(cl) > 1, 'length > 1')
            need(min(costs) <= best + tol,
                 'call %d: best returned reduced cost %g, minimum is %g', k, min(costs), best)
    rec.label('solver ' + c['solver'])
    rec.nt(improving and len(c['duals']) > 1)


@st.composite
def big_cases(draw, long=False):
    if not long:
        b = draw(gen.big_rule(n=(7, 13), m=(20, 120), many_n=7))
    else:
        b = draw(gen.big_rule(n=(2, 6), m=(4, 25), many_n=4))
    return {'big': b, 'D': draw(I(1, 14)),
            'solver': draw(S(['cbc', 'cbc', 'cbc', 'sat'])),
            'calls': draw(I(15, 80)) if long else draw(I(1, 4)),
            'long': not long and draw(I(0, 2)) == 0, 'hi': draw(S([1, 2, 6])), 'lam': draw(S([0.0, 0.25, 1.0, 2.5]))}


def big_check(c, rec):
    d, rnd = gen.expand_rule(c['big'])
    n, rows, y = d['n'], d['rows'], d['y']
    if c.get('long'):
        # only long clauses set the positives apart: each negative row lacks one or
        # two of the features of a few positive rows that have nearly all
        full = (1 << n) - 1
        rows = [full & ~(0 if t and rnd.randrange(3) else 1 << rnd.randrange(n)) &
                ~(0 if t or rnd.randrange(6) else 1 << rnd.randrange(n)) for t in y]
        y = [t if rnd.randrange(4) else 0 for t in y]
        y[0], y[1], rows[1] = 0, 1, full
        rec.label('long clauses needed')
    X, Y = binary_X(rows, n), np.array(y)
    sp = BDRSubProblem(c['D'], c['solver'])
    sizes = ref.popcounts(n)
    mu = None
    for k in range(c['calls']):
        if mu is None or rnd.randrange(3):
            mu = [rnd.randrange(8 * c['hi']) / 8.0 * rnd.randrange(2) for t in y if t]
        else:
            i, j = rnd.randrange(len(mu)), rnd.randrange(len(mu))
            mu[i], mu[j] = mu[j], mu[i]
        lam = c['lam'] * rnd.randrange(3) / 2.0
        costs = ref.all_reduced_costs(rows, y, n, lam, mu)
        best = float(costs[sizes <= c['D']].min())
        got = sp.generate_columns(X, Y, (lam, list(mu)), '')
        tol = ref.TOL * max(1.0, abs(best))
        if best < -tol:
            need(len(got) > 0, 'call %d: no column although the best reduced cost is %g',
                 k, best)
            rec.nt()
        if best > -1e-7:
            need(len(got) == 0, 'call %d: column %s although the best reduced cost is %g',
                 k, got, best)
        found = []
        for cl in got:
            cl = [int(j) for j in cl]
            need(len(set(cl)) == len(cl) and all(0 <= j < n for j in cl) and
                 len(cl) <= c['D'], 'not a clause of at most %d features: %s', c['D'], cl)
            found.append(float(costs[ref.cmask(cl)]))
            need(found[-1] < 1e-6, 'call %d: clause %s has reduced cost %g', k, cl, found[-1])
        need(not found or min(found) <= best + tol, 'call %d: best returned reduced cost '
             '%s, minimum is %g', k, found, best)
    rec.label('large')


CAMPAIGNS = [
    Campaign('pricing-history', cases(), check, quick=6400),
    Campaign('large', big_cases(), big_check, quick=240),
    Campaign('long', big_cases(long=True), big_check, quick=80),
]
