from hypothesis import strategies as st

import gen
import ref
from core import Campaign, need
from gen import I, S
from sut import BDRMasterProblem, binary_X
import numpy as np

RULE = ('0/1 data (up to 120 rows, 20 features and 150 clauses in large cases; row multiplicities up to 300), C, p, solver and a history of add '
        'clause / add empty clause / generate again / solve. Non-trivial: a solve '
        'after at least two accepted clauses where the LP optimum is strictly '
        'better than predicting all negative.')
ASSUMPTIONS = ['A clause is added at most once (the code rejects duplicates by '
               'assertion). Reference LP: scipy HiGHS, tolerance 1e-4 relative.']


@st.composite
def cases(draw, tall=False):
    c = draw(gen.rule_data(max_n=6, max_m=10 if tall else 16))
    m = len(c['rows'])
    c['mult'] = ([draw(S([1, 1, 2, 17, 129, 300])) for _ in range(m)]
                 if tall else [1] * m)
    c['C'] = draw(S(gen.CVALS + [1.5, 2.25, 4.75, 0.5]))
    c['p'] = draw(S(gen.PVALS))
    c['solver'] = draw(S(['glop', 'glop', 'glop', 'clp']))
    c['dtype'] = draw(S(['int64', 'int8', 'float64', 'bool']))
    pool = ref.all_clauses(c['n'], 4, empty=False)
    chosen = draw(st.lists(st.sampled_from(pool), min_size=1,
                           max_size=min(9, len(pool)), unique_by=tuple))
    ops = []
    for cl in chosen:
        x = draw(I(0, 9))
        if x == 0:
            ops.append(['gen'])
        elif x == 1:
            ops.append(['empty'])
        elif x <= 5:
            ops.append(['solve'])
        ops.append(['add', cl])
    ops.append(['solve'])
    c['ops'] = ops
    return c


@st.composite
def big_cases(draw):
    return {'big': draw(gen.big_rule()), 'C': draw(S(gen.CVALS + [20, 50])),
            'p': draw(S(gen.PVALS)), 'solver': draw(S(['glop', 'glop', 'clp'])),
            'dtype': draw(S(['int64', 'int8', 'float64', 'bool'])),
            'clauses': draw(I(20, 150)), 'every': draw(I(7, 40))}


def grow(c):
    d, rnd = gen.expand_rule(c['big'])
    seen, ops = set(), []
    for i in range(c['clauses']):
        r = rnd.choice([r for r, t in zip(d['rows'], d['y']) if t] + [(1 << d['n']) - 1])
        on = [j for j in range(d['n']) if r >> j & 1] or [0]
        cl = tuple(sorted(rnd.sample(on, min(len(on), rnd.choice([1, 2, 3, 4, 5, 5, 8, 13, 20])))))
        if cl not in seen:
            seen.add(cl)
            ops.append(['add', list(cl)])
        if i % c['every'] == 0:
            ops.append(['solve'])
    return dict(c, mult=[1] * len(d['rows']), ops=ops + [['solve']], **d)


def dual_check(rows, y, clauses, C, p, duals, lp, what):
    need(isinstance(duals, tuple) and len(duals) == 2, '%s: duals %r', what, duals)
    lam, mu = float(duals[0]), [float(v) for v in duals[1]]
    eps = ref.TOL * max(1.0, p)
    npos = sum(y)
    need(len(mu) == npos, '%s: %d duals for %d positive examples', what, len(mu), npos)
    need(lam >= -eps, '%s: complexity dual %g', what, lam)
    for v in mu:
        need(-eps <= v <= p + eps, '%s: example dual %g outside [0, %g]', what, v, p)
    for cl in clauses:
        rc = ref.reduced_cost(rows, y, cl, lam, mu)
        scale = max(1.0, sum(mu), ref.neg_cost(rows, y, cl))
        need(rc >= -ref.TOL * scale, '%s: clause %s has reduced cost %g', what, cl, rc)
    obj = sum(mu) - lam * C
    need(ref.close(obj, lp), '%s: dual objective %g, LP optimum %g', what, obj, lp)


def check(c, rec):
    if 'big' in c:
        c = grow(c)
    rows, y = [], []
    for r, t, k in zip(c['rows'], c['y'], c['mult']):
        rows += [r] * k
        y += [t] * k
    X = binary_X(rows, c['n'], np.dtype(c['dtype']))
    Y = np.array(y)
    mp = BDRMasterProblem(c['C'], c['p'], c['solver'])
    mp.generate_mp(X, Y)
    known = [[]]
    base = c['p'] * sum(y)
    for op in c['ops']:
        if op[0] == 'add':
            got = mp.add_column(list(op[1]))
            need(bool(got) is True and got is not None,
                 'clause %s refused: %r', op[1], got)
            known.append(op[1])
        elif op[0] == 'empty':
            got = mp.add_column([])
            need(not got, 'empty clause accepted')
            rec.label('empty clause offered')
        elif op[0] == 'gen':
            mp.generate_mp(X, Y)
            rec.label('generated again')
        else:
            lp = ref.rule_lp(rows, y, known, c['C'], c['p'])
            duals = mp.solve_rmp('')
            dual_check(rows, y, known, c['C'], c['p'], duals, lp,
                       'after %d clauses' % (len(known) - 1))
            rec.lab(duals[0] > 1e-6, 'budget binding')
            rec.nt(len(known) > 2 and lp < base - 1e-6)
            rec.lab(abs(lp - round(lp * 8) / 8) > 1e-6, 'fractional optimum')
            rec.label('solver ' + c['solver'])


CAMPAIGNS = [
    Campaign('history', cases(), check, quick=6400),
    Campaign('tall', cases(tall=True), check, quick=480),
    Campaign('large', big_cases(), check, quick=320),
]
