from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from props import trees
from sut import DTreeMasterProblem
import examples.dtree_experiment as exp

RULE = ('Depth 1-3, generated data, splits and candidates; initial paths of 1-3 complete '
        'trees; history of adding candidate paths (true or arbitrary costs, also fractional and negative ones, any '
        'target), solving and generating again; rows preprocessed by the master, by the '
        'experiment, aggressively, or not at all; row constraints at once or lazily; also pools of '
        'hundreds of paths. '
        'Non-trivial: depth >= 2, a solve after at least two added paths, and the LP '
        'differs from the LP without row constraints or is fractional or improves on '
        'the first LP.')
ASSUMPTIONS = ['Reference LP: scipy HiGHS over all rows, 1e-4 relative. Lazy mode: at '
               'least one cut round per tenth solve, limit 10*(rows+1) solves.']


@st.composite
def cases(draw, lazy=False):
    c = draw(gen.tree_with_paths(max_rows=12, min_rows=4, depths=(1, 2, 2, 2, 2, 3, 3)))
    c['odd_costs'] = draw(S([0, 0, 0, 1, 1, 2]))
    c['rowmode'] = draw(S(['own', 'own', 'normal', 'aggressive', 'plain']))
    c['solver'] = draw(S(['glop', 'glop', 'glop', 'clp']))
    c['rounds'] = draw(I(1, 3))
    c['lazy'] = lazy
    k = len(set(c['y']))
    ops = []
    bulk = draw(S([0, 1, 1, 1]))
    for _ in range(draw(I(1, 5 if bulk else 14))):
        x = draw(I(0, 9))
        if x == 0:
            ops.append(['gen'])
        elif x <= 2:
            ops.append(['solve', draw(S([1, 1, 2, 11])) if lazy else 1])
        else:
            leaf = draw(I(0, 2 ** c['d'] - 1))
            asg = [[n, draw(S(c['cands'][n]))] for n, _ in ref.leaf_path(c['d'], leaf)]
            asg = draw(st.permutations(asg))
            ops.append(['add', leaf, asg, draw(S([None, None] + list(range(k)))),
                        draw(I(0, len(c['X'])))])
    if bulk:
        ops.insert(draw(I(0, len(ops))), ['bulk', draw(I(1, 5)), draw(I(0, 4)), draw(I(0, 3))])
    ops.append(['solve', 1])
    c['ops'] = ops
    return c


@st.composite
def large_cases(draw):
    """Few rows, most candidate paths with every class: pools of hundreds."""
    c = draw(gen.tree_with_paths(max_rows=draw(S([4, 8, 12])), min_rows=2,
                                 depths=(2, 2, 2, 3), wide_cands=True, min_splits=3))
    c['odd_costs'] = draw(S([0, 1, 1, 2]))
    c['rowmode'] = draw(S(['own', 'normal', 'aggressive', 'plain']))
    c['solver'] = draw(S(['glop', 'glop', 'glop', 'clp']))
    c['rounds'] = draw(I(1, 3))
    c['lazy'] = draw(S([True, True, False]))
    c['cap'] = draw(S([200, 300, 400]))
    c['ops'] = [['solve', 11],
                ['bulk', draw(I(1, 5)), draw(I(0, 4)), draw(S([0, 0, 1]))], ['solve', 1]]
    return c


@st.composite
def wide_cases(draw):
    return {'big': draw(gen.big_tree(depths=(1, 2, 2, 3, 4), m=(20, 80), nf=(1, 8), ns=(3, 10),
                                     nc=(2, 5))),
            'odd_costs': draw(S([0, 0, 0, 1, 1, 2])),
            'rowmode': draw(S(['own', 'normal', 'aggressive'])),
            'solver': draw(S(['glop', 'glop', 'clp'])), 'rounds': draw(I(1, 12)),
            'lazy': draw(S([False, False, True])), 'cap': draw(S([60, 150, 250])),
            'nt': draw(I(1, 8)), 'na': draw(I(1, 60))}


@st.composite
def dense_cases(draw):
    """Many rows that matter, added lazily."""
    return {'big': draw(gen.big_tree(depths=(2, 2, 3), m=(60, 120), nf=(3, 5), ns=(14, 24),
                                     nc=(8, 24), k=(2, 3))),
            'odd_costs': draw(S([0, 0, 0, 1, 1, 2])), 'rowmode': draw(S(['own', 'normal'])),
            'solver': 'glop', 'rounds': draw(I(3, 12)), 'lazy': draw(S([True, True, False])),
            'cap': 250, 'nt': draw(I(5, 10)), 'na': draw(I(100, 240))}


@st.composite
def pool_cases(draw):
    """Up to hundreds of splits, some for each node."""
    return {'big': draw(gen.big_tree(depths=(1, 2, 2, 2, 3), m=(12, 50), nf=(2, 8),
                                     ns=(66, 400), nc=(3, 12), top=280)),
            'odd_costs': draw(S([0, 0, 0, 1, 1, 2])), 'rowmode': draw(S(['own', 'normal', 'plain'])),
            'solver': 'glop', 'rounds': draw(I(1, 6)),
            'lazy': draw(S([False, False, True])), 'cap': 120, 'nt': draw(I(2, 8)),
            'na': draw(I(20, 100))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'], trees=c['nt'])
    out.update({k: v for k, v in c.items() if k != 'big'})
    ops = []
    if rnd.randrange(2):
        ops += [['bulk', rnd.randint(1, 5), rnd.randint(0, 4), rnd.choice([0, 2, 3])]]
    for _ in range(c['na']):
        leaf = rnd.randrange(2 ** out['d'])
        asg = [[n, rnd.choice(out['cands'][n])] for n, _ in ref.leaf_path(out['d'], leaf)]
        rnd.shuffle(asg)
        ops.append(['add', leaf, asg, rnd.choice([None, None, rnd.randrange(out_k(out))]),
                    rnd.randrange(len(out['X']))])
        if rnd.randrange(12) == 0:
            ops.append(rnd.choice([['gen'], ['solve', 1], ['solve', 1]]))
    out['ops'] = ops + [['solve', 1]]
    return out


def out_k(c):
    return len(set(c['y']))


def rows_for(mode, t):
    if mode == 'own':
        return None
    X, y = t.X, t.y
    if mode == 'plain':
        from sut import Row
        out = []
        for r in range(len(y)):
            row = Row()
            row.id, row.target = r, int(y[r])
            for s in t.splits:
                (row.left_splits if r in s.left_rows else row.right_splits).add(s.id)
            out.append(row)
        return out
    return exp.preprocess(t.nodes, t.splits, X, y, t.depth,
                          aggressive=mode == 'aggressive', time_limit=-1)


def fancy(c, cost):
    """Costs that are no whole numbers, of either sign, when asked for."""
    return (cost * 11 % 13 - 4) / 4.0 if c.get('odd_costs') == 2 else cost


def make(c):
    t = sut.TreeSUT(c)
    known = trees.Known(t.td)
    init = []
    for a in c['trees']:
        for p in t.tree_paths(a):
            if c.get('odd_costs'):
                p.cost = fancy(c, (p.cost * 7 + p.leaf_id) % 5)
            if not any(p.is_same_as(q) for q in init):
                init.append(p)
    for p in init:
        known.add_path(p)
    return t, known, init


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t, known, init = make(c)
    mp = DTreeMasterProblem(init, t.leaves, t.nodes, t.splits,
                            beta_constraints_as_cuts=c['lazy'], generate_cuts=False,
                            num_cuts_round=c['rounds'], solver_type=c['solver'],
                            data_rows=rows_for(c['rowmode'], t))
    mp.generate_mp(t.X, t.y)
    first = None
    added = 0
    solves = 0

    value = None
    primal = [None]

    def solve(what):
        nonlocal solves, value
        solves += 1
        duals = mp.solve_rmp('')
        now, before, value = trees.objective(duals), value, trees.objective(duals)
        if before is not None and abs(now - before) > ref.TOL * max(1, abs(now)):
            need(bool(mp.rmp_objective_improved()) == (now > before),
                 '%s: rmp_objective_improved gives %s, LP value %g after %g', what,
                 mp.rmp_objective_improved(), now, before)
            rec.lab(now < before, 'LP value fell')
        # equal to the last bit
        if primal[0] is not None and primal[0] == getattr(mp, 'rmp_objective_', None):
            need(not mp.rmp_objective_improved(), '%s: rmp_objective_improved although the '
                 'LP value stays %r', what, primal[0])
            rec.label('LP value stayed')
        primal[0] = getattr(mp, 'rmp_objective_', None)
        need(len(duals) == 5 and list(duals[4]) == [], '%s: unexpected cuts', what)
        return duals
    for op in c['ops']:
        if op[0] == 'add':
            assign = {n: s for n, s in op[2]}
            p = t.path(op[1], assign, target=op[3])
            p.node_ids = [n for n, _ in op[2]]
            p.splits = [s for _, s in op[2]]
            if c['odd_costs']:
                p.cost = fancy(c, op[4])
            need(mp.add_column(p) is True, 'path refused')
            known.add_path(p)
            added += 1
        elif op[0] == 'bulk':
            # most of the candidate paths, in a generated pattern
            i = 0
            for leaf in range(2 ** t.depth):
                for assign in t.td.paths(leaf):
                    i += 1
                    if (i * op[1] + op[2]) % 5 < op[3] or \
                            len(known.paths) > c.get('cap', 90):
                        continue
                    for g in (t.td.classes if 'cap' in c else [None]):
                        p = t.path(leaf, assign, target=g)
                        if c['odd_costs']:
                            p.cost = fancy(c, (i * 7 + op[2]) % (4 + op[1]))
                        need(mp.add_column(p) is True, 'path refused')
                        known.add_path(p)
                        added += 1
        elif op[0] == 'gen':
            mp.generate_mp(t.X, t.y)
            rec.label('generated again')
        else:
            full = ref.path_lp(t.td, known.paths)
            free = ref.path_lp(t.td, known.paths, rows=False)
            for _ in range(op[1]):
                what = 'solve %d, %d paths' % (solves + 1, len(known.paths))
                duals = solve(what)
                if not c['lazy']:
                    trees.check_lp(known, duals, (), full, what)
                else:
                    trees.shape_check(t.td, duals, (), what)
                    trees.feasible(known, duals, (), what)
                    v = trees.objective(duals)
                    need(full - ref.TOL * max(1, abs(full)) <= v <= free + ref.TOL * max(1, abs(free)),
                         '%s: LP value %g outside [%g, %g]', what, v, full, free)
            if first is None:
                first = full
            if t.depth > 1 and added > 1:
                rec.lab(free > full + 1e-6, 'row constraints matter')
                rec.lab(abs(full - round(full)) > 1e-6, 'fractional')
                rec.lab(full > first + 1e-6, 'improved')
                rec.nt(free > full + 1e-6 or full > first + 1e-6
                       or abs(full - round(full)) > 1e-6)
    if c['lazy']:
        for _ in range(10 * (t.td.n + 1)):
            duals = solve('lazy')
            trees.shape_check(t.td, duals, (), 'lazy, solve %d' % solves)
            if ref.close(trees.objective(duals), full) and solves % 10 == 0:
                break
        trees.check_lp(known, duals, (), full, 'lazy rows after %d solves' % solves)
    rec.lab(c.get('odd_costs') == 2, 'fractional and negative costs')
    rec.lab(len(t.splits) > 64, 'more than 64 splits')
    rec.label('depth %d' % t.depth, 'rows ' + c['rowmode'])


CAMPAIGNS = [
    Campaign('history', cases(), check, quick=3200),
    Campaign('lazy', cases(lazy=True), check, quick=1000),
    Campaign('large', large_cases(), check, quick=240),
    Campaign('wide', wide_cases(), check, quick=120),
    Campaign('pool', pool_cases(), check, quick=120),
    Campaign('dense', dense_cases(), check, quick=320),
]
