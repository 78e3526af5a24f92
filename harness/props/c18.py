from fractions import Fraction
import math
import random

from hypothesis import strategies as st

import gen
from core import Campaign, need
from gen import I, S
from sut import RunningStat

RULE = ('Sequences of up to 40 pushes and clears on one or two running statistics, values '
        'on exact grids, large offsets with small spread, tiny, huge, repeated. '
        'Non-trivial: at least 3 values since the last clear, not all equal, and a '
        'clear happened before.')
ASSUMPTIONS = ['Exact reference with fractions; rounding allowance for n values of size s '
               'and largest deviation d from the mean: e = 128 n eps s for the mean, '
               '1e-9 relative plus e d + e^2 for the variance, as stable one-pass and '
               'two-pass algorithms keep.']

EPS = 2.0 ** -52

F = st.floats(-1e6, 1e6, allow_nan=False, allow_subnormal=False)


@st.composite
def cases(draw):
    kind = draw(S(['grid', 'grid', 'float', 'offset', 'scores', 'int']))
    base = draw(S([0.0, 1e3, -1e5, 1e8, 3e9, -1e12]))

    def val():
        if kind == 'grid':
            return draw(I(-40, 40)) / 4.0
        if kind == 'float':
            return draw(F)
        if kind == 'offset':
            return base + draw(I(-8, 8)) / 2.0
        if kind == 'int':
            return draw(I(-100, 100))
        return -draw(I(0, 64)) / 32.0
    ops = []
    for _ in range(draw(I(1, 24))):
        k = draw(I(0, 11))
        w = draw(S([0, 0, 1]))
        if k == 0:
            ops.append([w, 'clear'])
        elif k == 1:
            v = val()
            ops += [[w, v]] * draw(I(2, 4))
        else:
            ops.append([w, val()])
    return {'ops': ops}


@st.composite
def long_cases(draw):
    # a repeated pattern, cleared now and then
    base = draw(S([0.0, 0.1, 1e4, -1e8]))
    pat = [base + draw(I(-64, 64)) / draw(S([2.0, 3.0, 64.0])) for _ in range(draw(I(1, 9)))]
    ops = []
    for _ in range(draw(I(1, 4))):
        k = draw(S([5, 20, 60, 150]))
        off = draw(I(0, 8))
        ops += [[0, pat[(i * (1 + i // 7) + off) % len(pat)]] for i in range(k)]
        if draw(gen.B):
            ops.append([0, 'clear'])
            ops += [[0, v] for v in pat[:draw(I(0, 3))]]
    return {'ops': ops, 'every': 13}


@st.composite
def huge_cases(draw):
    """Thousands of values, stored as a pattern."""
    return {'huge': draw(I(0, 10 ** 9)), 'n': draw(I(200, 5000)), 'every': 700,
            'base': draw(S([0.0, 0.1, 1e4, -1e8])), 'clears': draw(I(0, 2))}


def expand(c):
    rnd = random.Random(c['huge'])
    step = rnd.choice([2.0, 3.0, 64.0])
    ops, shift = [], 0.0
    for _ in range(c['n']):
        if rnd.randrange(600) == 0:
            # the level moves
            shift = rnd.randint(-64, 64) / step
        ops.append([0, c['base'] + shift + rnd.randint(-64, 64) / step])
    for _ in range(c['clears']):
        ops.insert(rnd.randrange(len(ops)), [0, 'clear'])
    return dict(c, ops=ops)


def check(c, rec):
    if 'huge' in c:
        c = expand(c)
    sut = [RunningStat(), RunningStat()]
    model = [[], []]
    cleared = [False, False]

    def look(k):
        s, vs = sut[k], model[k]
        n = len(vs)
        need(s.num_data_values() == n, '%s values reported after %d pushes',
             s.num_data_values(), n)
        size = max([1.0] + [abs(v) for v in vs])
        fr = [Fraction(v) for v in vs]
        mean = sum(fr) / n if n else Fraction(0)
        var = sum((v - mean) ** 2 for v in fr) / (n - 1) if n > 1 else Fraction(0)
        dev = max([0.0] + [abs(float(x - mean)) for x in fr])
        m, v, sd = s.mean(), s.variance(), s.standard_deviation()
        need(abs(m - float(mean)) <= 128 * EPS * max(n, 1) * size, 'mean %r of %s, expected %r', m, vs,
             float(mean))
        need(v >= 0, 'variance %r of %s', v, vs)
        err = 128 * EPS * max(n, 1) * size
        tol = 1e-9 * float(var) + err * dev + err * err
        need(abs(v - float(var)) <= tol, 'variance %r of %s, expected %r', v, vs, float(var))
        need(abs(sd - math.sqrt(v)) <= 1e-9 * max(1.0, sd),
             'standard deviation %r with variance %r', sd, v)
        if n < 2:
            need(v == 0 and sd == 0, 'variance %r of %s', v, vs)
        if n == 0:
            need(m == 0, 'mean %r without values', m)
        rec.nt(n >= 3 and cleared[k] and len(set(vs)) > 1)
        rec.lab(n >= 3, '3 or more values')
        rec.lab(n > 1000, 'more than 1000 values')
        if 'huge' in c:
            rec.nt(len(set(vs)) > 1 and n > 200)
    look(0)
    for i, (w, op) in enumerate(c['ops']):
        if op == 'clear':
            sut[w].clear()
            model[w] = []
            cleared[w] = True
            rec.label('clear')
        else:
            sut[w].push(op)
            model[w].append(op)
        if i % c.get('every', 1) == 0 or op == 'clear' or i > len(c['ops']) - 5:
            look(w)
    look(0)
    look(1)


CAMPAIGNS = [
    Campaign('sequence', cases(), check, quick=16000),
    Campaign('long', long_cases(), check, quick=1500),
    Campaign('huge', huge_cases(), check, quick=60),
]
