import random

from hypothesis import strategies as st

import gen
import ref
from core import Campaign, attr, need
from gen import I, S
from sut import BDRMasterProblem, binary_X
import numpy as np

RULE = ('0/1 data, pool of distinct clauses added in generated order, C, p, integer '
        'solves at generated points (also without an LP solve before, and repeated). '
        'Non-trivial: the best rule is not the empty one and the best rule without '
        'budget is cheaper or uses more than one clause.')
ASSUMPTIONS = ['Brute force over all sub-pools; p is a multiple of 1/8.']


@st.composite
def cases(draw):
    c = draw(gen.rule_data(max_n=6, max_m=22, min_m=4))
    c['C'] = draw(S(gen.CVALS + [12, 15]))
    c['p'] = draw(S(gen.PVALS))
    pool = ref.all_clauses(c['n'], 3, empty=False)
    chosen = draw(st.lists(st.sampled_from(pool), min_size=0,
                           max_size=min(10, len(pool)), unique_by=tuple))
    # half of the pools consist of good clauses only
    if draw(S([0, 1])):
        good = sorted(pool, key=lambda k: (ref.neg_cost(c['rows'], c['y'], k) * 2
                                           - sum(1 for r, t in zip(c['rows'], c['y'])
                                                 if t and ref.covers(r, k)), len(k)))
        chosen = draw(st.permutations(good[:draw(I(2, 9))]))
    ops = []
    for cl in chosen:
        ops.append(['add', cl])
        x = draw(I(0, 11))
        if x == 0:
            ops.append(['ip'])
        elif x <= 2:
            ops.append(['lp'])
        elif x == 3:
            ops.append(['empty'])
    if draw(S([0, 1])):
        ops.append(['lp'])
    ops.append(['ip'])
    c['ops'] = ops
    return c


def rule_of(mp):
    rule = attr(mp, 'explanation')
    return [[int(j) for j in cl] for cl in rule]


@st.composite
def big_cases(draw):
    return {'big': draw(gen.big_rule(n=(6, 16), m=(20, 90))), 'C': draw(I(3, 40)),
            'p': draw(S(gen.PVALS)), 'clauses': draw(I(15, 70)), 'every': draw(I(9, 80))}


@st.composite
def many_cases(draw):
    """Best rules of many clauses."""
    n = draw(I(8, draw(S([40, 40, 150]))))
    return {'many': {'seed': draw(I(0, 10 ** 9)), 'n': n, 'm': draw(I(10, max(60, n)))},
            'big': None, 'C': draw(S([10, 20, 24, 30, 40, 60, 80, 160, 320])),
            'p': draw(S([1, 1, 2, 3, 0.5, 10])), 'every': draw(I(5, 40))}


def scatter(c):
    """Every positive example has a feature or pair of features of its own."""
    rnd = random.Random(c['many']['seed'])
    n, m = c['many']['n'], c['many']['m']
    pool = [[j] for j in range(n)] if rnd.randrange(3) else \
        [[j, (j + rnd.randint(1, n - 1)) % n] for j in range(n)]
    rnd.shuffle(pool)
    pool = [list(k) for k in {tuple(sorted(k)): 1 for k in pool}]
    rows, y = [], []
    for i in range(m):
        t = rnd.randrange(5) > 0
        r = ref.cmask(pool[i % len(pool)]) if t else 0
        if rnd.randrange(6) == 0:
            r |= 1 << rnd.randrange(n)
        rows.append(r)
        y.append(int(t))
    y[0], y[1] = 0, 1
    ops = []
    for i, cl in enumerate(pool[:rnd.randint(min(5, len(pool)), len(pool))]):
        ops.append(['add', cl])
        if i % c['every'] == c['every'] - 1:
            ops.append(rnd.choice([['ip'], ['lp']]))
    return dict(c, ops=ops + [['ip']], n=n, rows=rows, y=y)


def grow(c):
    if 'many' in c:
        return scatter(c)
    d, rnd = gen.expand_rule(c['big'])
    seen, ops = set(), []
    for i in range(c['clauses']):
        r = rnd.choice([r for r, t in zip(d['rows'], d['y']) if t] + [(1 << d['n']) - 1])
        on = [j for j in range(d['n']) if r >> j & 1] or [0]
        cl = tuple(sorted(rnd.sample(on, min(len(on), rnd.randint(1, 4)))))
        if cl not in seen:
            seen.add(cl)
            ops.append(['add', list(cl)])
        if i % c['every'] == c['every'] - 1:
            ops.append(rnd.choice([['ip'], ['lp']]))
    return dict(c, ops=ops + [['ip']], **d)


def judge(c, mp, known, rec, what):
    rule = rule_of(mp)
    keys = [tuple(sorted(cl)) for cl in rule]
    pool = [tuple(sorted(k)) for k in known]
    for k in keys:
        need(k in pool, '%s: unknown clause %s', what, k)
    need(len(set(keys)) == len(keys), '%s: clause chosen twice: %s', what, keys)
    need(ref.complexity(rule) <= c['C'], '%s: complexity %d of %s exceeds %d', what,
         ref.complexity(rule), rule, c['C'])
    solve = ref.best_rule_milp if 'big' in c else ref.best_rule
    best = solve(c['rows'], c['y'], known, c['C'], c['p'])
    cost = ref.rule_cost(c['rows'], c['y'], rule, c['p'])
    need(ref.close(cost, best), '%s: cost %g of %s, best possible is %g', what, cost,
         rule, best)
    free = solve(c['rows'], c['y'], known, 10 ** 6, c['p'])
    rec.lab(free < best - 1e-9, 'budget matters')
    rec.lab(len(rule) > 1, 'several clauses')
    rec.lab(len(rule) > 8, 'more than eight clauses')
    rec.lab([] in rule, 'empty clause chosen')
    rec.nt(best < c['p'] * sum(c['y']) - 1e-9 and (free < best - 1e-9 or len(rule) > 1))


def check(c, rec):
    if 'big' in c:
        c = grow(c)
    X = binary_X(c['rows'], c['n'])
    Y = np.array(c['y'])
    mp = BDRMasterProblem(c['C'], c['p'], 'glop')
    mp.generate_mp(X, Y)
    known = [[]]
    n = 0
    for op in c['ops']:
        if op[0] == 'add':
            mp.add_column(list(op[1]))
            known.append(op[1])
        elif op[0] == 'empty':
            mp.add_column([])
        elif op[0] == 'lp':
            mp.solve_rmp('')
        else:
            n += 1
            need(mp.solve_ip(''), 'integer solve failed')
            judge(c, mp, known, rec, 'solve %d' % n)


CAMPAIGNS = [
    Campaign('pool', cases(), check, quick=4800),
    Campaign('large', big_cases(), check, quick=320),
    Campaign('many', many_cases(), check, quick=320),
]
