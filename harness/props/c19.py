import random

from hypothesis import strategies as st

import gen
from core import Campaign, need
from gen import I, S
from sut import BaseSubproblem, Parameter
import math

RULE = ('Histories of choose / score (last choice or a named index) / foreign tuner / '
        'global random calls on tuners with 1-5, 13 or 40 values of any type, any explore count '
        'and switch flag. Non-trivial: an exploitation choice after every value was '
        'scored at least four times with at least two values whose means differ.')
ASSUMPTIONS = ['Values on the edge of the tenth-of-a-deviation window (1e-9) are free. '
               'Scores are on a grid so that the reference mean is exact to rounding.']

VALUES = [[3, 4, 2], [2, 1], [2, 0], [False, True], ['a', 'b', 'c'], [5], [0, 1, 2, 3],
          [1.5, 2.5], ['x'], [None, 7], [10, 20, 30, 40, 50],
          [1, True], [True, 1.0, 1], [0, 0.0, False, 2], ['1', 1, 1.0],
          list(range(13)), list(range(40))]


LATE = ['late', -1, 2.5]


@st.composite
def cases(draw):
    vals = draw(S(VALUES))
    c = {'values': vals, 'c': draw(S([0.3, 0.3, 0.0, 1.0, 0.05])),
         'seed': draw(I(0, 2 ** 31)), 'gseed': draw(I(0, 1000)),
         'explore': draw(S([None, 0, 0, 1, 2, 3, 5, 8, 15])),
         'flag': draw(S([None, None, 1, 2, 4, 8, 3, 6])), 'ops': []}
    spread = draw(S([0, 1, 4, 16, 64, 128]))
    step = draw(S([16.0, 64.0, 128.0]))
    late = draw(S([0, 0, 1]))
    level = [-draw(I(0, draw(S([2, 8, 32])))) / step for _ in vals + LATE * late]
    n = draw(I(4, 60))
    style = draw(S(['pairs', 'pairs', 'mixed']))
    warm = draw(S([0, 0, 4, 5]))
    for i in range(len(vals)):
        for _ in range(warm):
            c['ops'].append(['named', i, level[i] - draw(I(0, spread)) / 64.0])
    for _ in range(n):
        k = draw(I(0, 11))
        if late and gen.chance(draw, 1, 14):
            # the tuner is changed in the middle
            kind = draw(S(['explore', 'flag', 'flag', 'add']))
            c['ops'].append([kind, draw(S([0, 1, 2, 3, 6, 9])) if kind != 'add'
                             else draw(I(0, len(LATE) - 1))])
            if kind == 'flag':
                c['ops'] += [['explore', draw(S([1, 3, 5, 8]))], ['choose'], ['choose']]
        if k == 0:
            c['ops'].append(['foreign'])
        elif k == 1:
            c['ops'].append(['global'])
        elif k == 2:
            i = draw(I(0, len(vals) - 1 + late * draw(I(0, 2))))
            c['ops'].append(['named', i, level[i] - draw(I(0, spread)) / 64.0])
        elif style == 'pairs':
            # the score depends on the value chosen (resolved while running)
            c['ops'].append(['choose'])
            c['ops'].append(['score', [l - draw(I(0, spread)) / 64.0 for l in level]])
        elif k < 7:
            c['ops'].append(['choose'])
        else:
            c['ops'].append(['score', [l - draw(I(0, spread)) / 64.0 for l in level]])
    return c


@st.composite
def long_cases(draw):
    """Hundreds of scores per value, levels that move."""
    return {'long': draw(I(0, 10 ** 9)), 'values': draw(S(VALUES)), 'n': draw(I(60, 900)),
            'c': draw(S([0.3, 0.0, 1.0])), 'seed': draw(I(0, 2 ** 31)),
            'gseed': draw(I(0, 1000)), 'explore': draw(S([None, 0, 0, 3, 40, 70, 300])),
            'flag': draw(S([None, None, 1, 2, 4, 8, 16, 32, 64]))}


def expand(c):
    rnd = random.Random(c['long'])
    k = len(c['values'])
    step = rnd.choice([16.0, 64.0])
    level = [-rnd.randint(0, 32) / step for _ in range(k + len(LATE))]
    spread = rnd.choice([0, 1, 8, 64])
    ops = []
    for i in range(c['n']):
        if rnd.randrange(90) == 0:
            # a value gets better or worse
            level[rnd.randrange(k)] = -rnd.randint(0, 32) / step
        x = rnd.randrange(20)
        if rnd.randrange(200) == 0:
            ops.append(rnd.choice([['explore', rnd.randint(0, 9)],
                                   ['flag', rnd.randint(1, 9)],
                                   ['add', rnd.randrange(len(LATE))]]))
        if x == 0:
            ops.append(['foreign'])
        elif x <= 6:
            j = rnd.randrange(k)
            ops.append(['named', j, level[j] - rnd.randint(0, spread) / 64.0])
        else:
            ops += [['choose'], ['score', [v - rnd.randint(0, spread) / 64.0 for v in level]]]
    return dict(c, ops=ops)


class Model:
    def __init__(self, n, c, explore, flag):
        self.n, self.c, self.explore, self.flag = n, c, explore, flag
        self.scores = [[] for _ in range(n)]
        self.last = 0

    def allowed(self):
        """Indices the tuner may return now, the edge cases included."""
        if self.explore > 0:
            if self.n == 2:
                return {1 if self.flag & self.explore else 0}
            return set(range(self.n))
        few = {i for i in range(self.n) if len(self.scores[i]) < 4}
        if few:
            return few
        mean = [sum(s) / len(s) for s in self.scores]
        final = [m + self.c / len(s) for m, s in zip(mean, self.scores)]
        best = max(final)
        out = set()
        for i, s in enumerate(self.scores):
            var = sum((v - mean[i]) ** 2 for v in s) / (len(s) - 1)
            if final[i] + math.sqrt(var) / 10 >= best - 1e-9:
                out.add(i)
        return out

    def add(self):
        self.n += 1
        self.scores.append([])

    def chosen(self, i):
        if self.explore > 0:
            self.explore -= 1
        self.last = i


def make(c):
    p = Parameter(c['c'], 'p', c['seed'])
    for v in c['values']:
        p.add_value(v)
    if c['explore'] is not None:
        p.set_explore_count(c['explore'])
    if c['flag'] is not None:
        p.set_switch_flag(c['flag'])
    return p


def run(c, noise, rec=None):
    random.seed(c['gseed'] + (1 if noise else 0))
    p = make(c)
    other = Parameter(0.3, 'other', c['seed'])
    for v in (1, 2, 3):
        other.add_value(v)
    vals = list(c['values'])
    m = Model(len(vals), c['c'], 10 if c['explore'] is None else c['explore'],
              1 if c['flag'] is None else c['flag'])
    picks = []
    for op in c['ops']:
        if op[0] == 'choose':
            ok = m.allowed()
            was = m.explore
            v = p.get_best_value()
            hit = [i for i in range(len(vals)) if vals[i] is v or
                   (vals[i] == v and type(vals[i]) is type(v))]
            need(hit, 'returned %r, registered are %s', v, vals)
            need(hit[0] in ok, 'returned %r (value %d), allowed now are the values %s '
                 '(explore count %d, scores %s)', v, hit[0], sorted(ok), was, m.scores)
            m.chosen(hit[0])
            picks.append(hit[0])
            if rec is not None:
                if was > 0:
                    rec.label('explore')
                elif all(len(s) >= 4 for s in m.scores):
                    rec.label('exploit among scored')
                    if len(vals) > 1:
                        rec.lab(len(ok) < len(vals), 'window excludes a value')
                        rec.lab(1 < len(ok), 'window holds several')
                        rec.nt(len({round(sum(s) / len(s), 9) for s in m.scores}) > 1)
                else:
                    rec.label('exploit few counts')
        elif op[0] == 'score':
            s = op[1][m.last]
            p.adjust_score(s)
            m.scores[m.last].append(s)
        elif op[0] == 'explore':
            p.set_explore_count(op[1])
            m.explore = op[1]
        elif op[0] == 'flag':
            p.set_switch_flag(op[1])
            m.flag = op[1]
        elif op[0] == 'add':
            if LATE[op[1]] in vals:
                continue
            p.add_value(LATE[op[1]])
            vals.append(LATE[op[1]])
            m.add()
            if rec is not None:
                rec.lab(any(m.scores), 'value added after scores')
        elif op[0] == 'named':
            i = op[1] % len(vals)
            p.adjust_score(op[2], i)
            m.scores[i].append(op[2])
            if rec is not None:
                rec.label('named index')
        elif noise:
            if op[0] == 'foreign':
                other.get_best_value()
                other.adjust_score(-1.0)
                make(c).get_best_value()
                BaseSubproblem.get_tunable_params()
            else:
                random.random()
                random.seed(3)
    # every tuner answer must be explained by the reference counts
    for i in range(len(vals)):
        n = p.scores_[i].num_data_values() if hasattr(p, 'scores_') else None
        if n is not None:
            need(n == len(m.scores[i]), '%d scores credited to value %d, %d were given',
                 n, i, len(m.scores[i]))
    return picks


def check(c, rec):
    if 'long' in c:
        c = expand(c)
    a = run(c, False, rec)
    b = run(c, True)
    need(a == b, 'same seed and history, different choices: %s and %s', a, b)


CAMPAIGNS = [Campaign('history', cases(), check, quick=6400),
             Campaign('long', long_cases(), check, quick=640)]
