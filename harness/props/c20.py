import itertools
import random

from hypothesis import strategies as st
from ortools.sat.python import cp_model

import gen
from core import Campaign, attr, need
from gen import I, S
from sut import BaseSubproblem

RULE = ('Sequences of 1-5 CP models (boolean / small integer variables, linear '
        'constraints, maximise / minimise / feasibility, feasible or not) on two '
        'interleaved subproblem instances, solved for real, cut short after the first '
        'solution, or with a scripted solver answer (status, objective, bound, wall '
        'time). Non-trivial: two or more solves on one instance with at least two '
        'different outcomes or parameter values.')
ASSUMPTIONS = ['Optimum by enumeration of all assignments. The scripted solver replaces '
               'CpSolver.Solve and its result accessors.']


@st.composite
def model(draw):
    n = draw(I(1, 6))
    up = [draw(S([1, 1, 1, 2, 3])) for _ in range(n)]
    cons = []
    for _ in range(draw(I(0, 4))):
        cons.append([[draw(I(-4, 4)) for _ in range(n)], draw(S(['<=', '>=', '=='])),
                     draw(I(-4, 6))])
    return {'up': up, 'cons': cons, 'obj': [draw(I(-5, 5)) for _ in range(n)],
            'sense': draw(S(['max', 'max', 'min', 'none'])), 'off': draw(I(-6, 6))}


@st.composite
def cases(draw, scripted=False):
    steps = []
    for _ in range(draw(I(1, 8 if scripted else 5))):
        s = {'inst': draw(S([0, 0, 0, 1])), 'limit': draw(S([2, 30, 30, 5, 0.5])),
             'cb': draw(gen.B)}
        if scripted:
            s['nsol'] = draw(I(0, 3))
            s['status'] = draw(S(['OPTIMAL', 'FEASIBLE', 'FEASIBLE', 'FEASIBLE',
                                  'INFEASIBLE', 'UNKNOWN', 'MODEL_INVALID']))
            s['obj'] = draw(I(-40, 40)) / 4.0
            b = draw(I(-40, 40)) / 4.0
            if s['status'] == 'FEASIBLE' and s['obj'] == 0 and b == 0:
                b = 1.0
            s['bound'] = s['obj'] if s['status'] == 'OPTIMAL' else b
            s['wall'] = draw(I(0, 64)) / 64.0 * s['limit']
        else:
            s['model'] = draw(model())
            s['first'] = draw(S([False, False, True]))
        steps.append(s)
    return {'steps': steps}


@st.composite
def long_cases(draw):
    return {'long': draw(I(0, 10 ** 9)), 'n': draw(I(20, 200))}


def expand(c):
    rnd = random.Random(c['long'])
    steps = []
    speed = rnd.choice([1, 1, 1, 0.01, 0])
    pool = rnd.choice([['OPTIMAL'], ['OPTIMAL', 'FEASIBLE'],
                       ['OPTIMAL', 'FEASIBLE', 'INFEASIBLE', 'UNKNOWN']])
    for _ in range(c['n']):
        s = {'inst': int(rnd.randrange(8) == 0), 'limit': rnd.choice([2, 2, 30]),
             'cb': rnd.randrange(3) == 0, 'nsol': rnd.randrange(4), 'status': rnd.choice(pool), 'obj': rnd.randint(-40, 40) / 4.0}
        s['bound'] = s['obj']
        if s['status'] != 'OPTIMAL':
            s['bound'] = rnd.randint(-40, 40) / 4.0 or 1.0
        s['wall'] = rnd.randint(0, 64) / 64.0 * s['limit'] * speed
        steps.append(s)
    return {'steps': steps}


STATUS = {'OPTIMAL': cp_model.OPTIMAL, 'FEASIBLE': cp_model.FEASIBLE,
          'INFEASIBLE': cp_model.INFEASIBLE, 'UNKNOWN': cp_model.UNKNOWN,
          'MODEL_INVALID': cp_model.MODEL_INVALID}


class Fake(cp_model.CpSolver):
    script = None
    seen = None
    calls = 0

    def _go(self, model, callback):
        self.calls += 1
        self.model = model
        self.limit = self.parameters.max_time_in_seconds
        if callback is not None:
            for _ in range(self.script.get('nsol', 1)):
                callback.on_solution_callback()
        self.seen = used(self)
        return STATUS[self.script['status']]

    def Solve(self, model, solution_callback=None):
        return self._go(model, solution_callback)

    def solve(self, model, solution_callback=None):
        return self._go(model, solution_callback)

    def WallTime(self):
        return self.script['wall']

    def ObjectiveValue(self):
        return self.script['obj']

    def BestObjectiveBound(self):
        return self.script['bound']

    wall_time = property(WallTime)
    objective_value = property(ObjectiveValue)
    best_objective_bound = property(BestObjectiveBound)


class Real(cp_model.CpSolver):
    seen = None
    calls = 0
    status = None
    depth = 0

    def _count(self):
        if self.depth == 0:
            self.calls += 1
            self.seen = used(self)

    def Solve(self, *a, **k):
        self._count()
        self.depth += 1
        try:
            self.status = super().Solve(*a, **k)
        finally:
            self.depth -= 1
        return self.status


def used(solver):
    p = solver.parameters
    return {'max_presolve_iterations': p.max_presolve_iterations,
            'cp_model_probing_level': p.cp_model_probing_level,
            'min_num_lns_workers': p.min_num_lns_workers}


class Count(cp_model.CpSolverSolutionCallback):
    def __init__(self):
        super().__init__()
        self.count = 0

    def on_solution_callback(self):
        self.count += 1


class Collect(cp_model.CpSolverSolutionCallback):
    def __init__(self, xs):
        super().__init__()
        self.xs, self.got = xs, []

    def on_solution_callback(self):
        self.got.append([int(self.Value(x)) for x in self.xs])


def build(m):
    md = cp_model.CpModel()
    xs = [md.NewIntVar(0, u, 'x%d' % i) for i, u in enumerate(m['up'])]
    for co, op, rhs in m['cons']:
        e = sum(a * x for a, x in zip(co, xs))
        if all(a == 0 for a in co):
            e = 0 * xs[0]
        md.Add(e <= rhs if op == '<=' else e >= rhs if op == '>=' else e == rhs)
    if m['sense'] != 'none':
        e = sum(a * x for a, x in zip(m['obj'], xs)) + m['off']
        (md.Maximize if m['sense'] == 'max' else md.Minimize)(e)
    return md, xs


def ok(m, v):
    for co, op, rhs in m['cons']:
        t = sum(a * x for a, x in zip(co, v))
        if not (t <= rhs if op == '<=' else t >= rhs if op == '>=' else t == rhs):
            return False
    return True


def value(m, v):
    return sum(a * x for a, x in zip(m['obj'], v)) + m['off']


def optimum(m):
    """None if infeasible."""
    vals = [value(m, v) for v in itertools.product(*[range(u + 1) for u in m['up']])
            if ok(m, v)]
    if not vals:
        return None
    return {'max': max, 'min': min, 'none': max}[m['sense']](vals)


def totals(sp):
    return {k: [(v, s.num_data_values(), s.mean() * s.num_data_values())
                for v, s in zip(p.values_, p.scores_)]
            for k, p in attr(sp, 'tunable_params_').items()}


def check(c, rec):
    if 'long' in c:
        c = expand(c)
    scripted = 'status' in c['steps'][0]
    insts = [BaseSubproblem(), BaseSubproblem()]
    for sp in insts:
        sp.cp_solver_ = Fake() if scripted else Real()
    outcomes = [[], []]
    picks = [set(), set()]
    for si, s in enumerate(c['steps']):
        sp, other = insts[s['inst']], insts[1 - s['inst']]
        solver = sp.cp_solver_
        before, obefore = totals(sp), totals(other)
        nt, ng = len(attr(sp, 'solve_times_')), len(attr(sp, 'gaps_'))
        ont, ong = list(other.solve_times_), list(other.gaps_)
        calls = solver.calls
        cb = None
        if scripted:
            solver.script = s
            md = cp_model.CpModel()
            if s['cb']:
                cb = Count()
                sp.solve_model(md, time_limit=s['limit'], callback=cb)
                need(cb.count == s.get('nsol', 1), 'solve %d: %d solutions found, the '
                     'callback got %d', si, s.get('nsol', 1), cb.count)
                rec.label('callback')
            else:
                sp.solve_model(md, time_limit=s['limit'])
            need(solver.model is md, 'solve %d: another model was solved', si)
            status, wall = STATUS[s['status']], s['wall']
            obj, bound = s['obj'], s['bound']
        else:
            m = s['model']
            md, xs = build(m)
            cb = Collect(xs) if s['cb'] else None
            solver.parameters.stop_after_first_solution = s['first']
            sp.solve_model(md, time_limit=s['limit'], callback=cb)
            status = solver.status
            wall = solver.WallTime()
            has_obj = m['sense'] != 'none'
            obj = solver.ObjectiveValue() if has_obj else 0
            bound = solver.BestObjectiveBound() if has_obj else 0
        what = 'solve %d' % si
        need(solver.calls == calls + 1, '%s: the solver ran %d times', what,
             solver.calls - calls)
        name = [k for k, v in STATUS.items() if v == status][0]
        if not scripted:
            best = optimum(m)
            if best is None:
                need(name in ('INFEASIBLE', 'UNKNOWN'), '%s: infeasible model ended %s', what,
                     name)
            else:
                need(name in ('OPTIMAL', 'FEASIBLE', 'UNKNOWN'),
                     '%s: feasible model ended %s', what, name)
                if name == 'OPTIMAL' and m['sense'] != 'none':
                    need(abs(obj - best) < 1e-6, '%s: optimum %g reported, true one %g', what,
                         obj, best)
                need(name != 'FEASIBLE' or s['first'] or m['sense'] == 'none',
                     '%s: tiny model not solved to optimality', what)
            if cb is not None:
                for v in cb.got:
                    need(ok(m, v), '%s: callback got %s, not a solution', what, v)
                if name in ('OPTIMAL', 'FEASIBLE'):
                    need(cb.got, '%s: callback got no solution', what)
                    if m['sense'] != 'none':
                        need(abs(value(m, cb.got[-1]) - obj) < 1e-6, '%s: last solution of '
                             'the callback has %g, the solver %g', what,
                             value(m, cb.got[-1]), obj)
                rec.label('callback')
        if name == 'OPTIMAL':
            gap = 0.0
        elif name == 'FEASIBLE':
            if scripted or m['sense'] != 'none':
                gap = (1.0 if obj * bound < 0 else
                       abs(obj - bound) / max(abs(obj), abs(bound)))
            else:
                gap = None
        else:
            gap = 1.0
        share = wall / s['limit'] if name == 'OPTIMAL' else 1.0
        need(len(sp.solve_times_) == nt + 1 and len(sp.gaps_) == ng + 1,
             '%s: %d solve times and %d gaps recorded', what, len(sp.solve_times_) - nt,
             len(sp.gaps_) - ng)
        need(abs(sp.solve_times_[-1] - wall) < 1e-9, '%s: solve time %g recorded, was %g',
             what, sp.solve_times_[-1], wall)
        if gap is not None:
            need(abs(sp.gaps_[-1] - gap) < 1e-9, '%s (%s, objective %g, bound %g): gap %g '
                 'recorded, expected %g', what, name, obj, bound, sp.gaps_[-1], gap)
        after = totals(sp)
        want = -(share + sp.gaps_[-1])
        for k in before:
            diff = [(v, n1 - n0, t1 - t0) for (v, n0, t0), (_, n1, t1)
                    in zip(before[k], after[k]) if (n0, t0) != (n1, t1)]
            need(len(diff) == 1 and diff[0][1] == 1, '%s: %s credits %s', what, k, diff)
            need(abs(diff[0][2] - want) < 1e-6, '%s (%s): %s credited %g, expected %g', what,
                 name, k, diff[0][2], want)
            need(solver.seen.get(k) == diff[0][0], '%s: solved with %s=%s, score credited to '
                 '%s', what, k, solver.seen.get(k), diff[0][0])
        need(totals(other) == obefore and other.solve_times_ == ont and other.gaps_ == ong,
             '%s changed the records of another subproblem', what)
        outcomes[s['inst']].append(name)
        picks[s['inst']].add(tuple(sorted(solver.seen.items())))
        rec.label('status ' + name)
        if name == 'FEASIBLE' and gap is not None:
            rec.lab(obj * bound < 0, 'signs differ')
            rec.lab(0 < gap < 1, 'partial gap')
    rec.nt(any(len(o) > 1 and (len(set(o)) > 1 or len(p) > 1)
               for o, p in zip(outcomes, picks)))


CAMPAIGNS = [
    Campaign('real', cases(), check, quick=1800),
    Campaign('scripted', cases(scripted=True), check, quick=6000),
    Campaign('long', long_cases(), check, quick=400),
]
