import itertools
import random
import zlib

from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, need
from gen import I, S
from props import trees
from props.c11 import make, rows_for
from sut import DTreeMasterProblem, DTreeSubProblemHeuristic

RULE = ('Depth 2-3, few rows (so that the path LP is fractional), pools of most '
        'candidate paths with true or arbitrary costs, generated cuts with or without '
        'lazy row cuts, several rounds, more paths added after cuts, integer solve at '
        'the end, sometimes a second master over the same splits. Non-trivial: at least one cut was generated and a path was added or '
        'another solve happened after it.')
ASSUMPTIONS = ['Reference LP: scipy HiGHS with one equality per reported cut. '
               'CP-SAT runs multi-threaded, so the cuts of a case can vary.']


COSTS = [0, 0, 0, 1, 3, 6]


@st.composite
def cases(draw):
    c = draw(gen.tree_with_paths(max_rows=draw(S([3, 3, 4, 8])), min_rows=2,
                                 depths=(2, 2, 2, 3), max_splits=6, trees=2, max_nf=4,
                                 wide_cands=True, min_splits=draw(S([3, 4, 5])),
                                 min_nf=draw(S([1, 2, 3, 3])), min_cands=draw(S([2, 3]))))
    c['odd_costs'] = draw(S([0, 1, 1, 1]))
    c['lazy'] = draw(S([False, False, True]))
    c['rowmode'] = draw(S(['own', 'own', 'aggressive', 'plain']))
    c['rounds'] = draw(I(1, 4))
    c['solver'] = draw(S(['glop', 'glop', 'glop', 'clp']))
    c['stride'] = [draw(I(1, 5)), draw(I(0, 4)), draw(S([0, 0, 0, 0, 1]))]
    c['cseed'] = draw(I(0, 10 ** 6))
    # contradicting parities of the split choices per leaf: the LP mixes trees
    c['xor'] = None
    if draw(S([0, 1, 1, 1])):
        nn = 2 ** c['d'] - 1
        c['odd_costs'] = 1
        c['xor'] = [[[draw(S([0, 1, 1])) for _ in range(nn)], draw(I(0, 1)),
                     draw(I(2, 6))] for _ in range(2 ** c['d'])]
        if draw(S([0, 1, 1])):
            for leaf in range(0, 2 ** c['d'], 2):
                par = ref.leaf_path(c['d'], leaf)[-1][0]
                for k in (0, 1):
                    c['xor'][leaf + k][0] = [1 if n in (0, par) else 0 for n in range(nn)]
                    c['xor'][leaf + k][1] = k
    ops = [['solve', 10]]
    for _ in range(draw(I(1, 5))):
        x = draw(I(0, 5))
        if x <= 2:
            leaf = draw(I(0, 2 ** c['d'] - 1))
            asg = [[n, draw(S(c['cands'][n]))] for n, _ in ref.leaf_path(c['d'], leaf)]
            ops.append(['add', leaf, asg, draw(I(0, 8))])
        elif x == 3:
            ops.append(['hold', draw(I(1, 3))])
        else:
            ops.append(['solve', draw(S([1, 1, 10]))])
    if draw(S([0, 0, 1])):
        # all other candidate paths, the later ones after the cuts
        ops.append(['rest'])
        c['early'] = draw(S([12, 40, 70, 100, 130]))
    ops.append(['solve', 1])
    c['ops'] = ops
    c['again'] = gen.chance(draw, 1, 3)
    return c


@st.composite
def large_cases(draw):
    """Many splits, many cuts, paths that arrive between the rounds."""
    return {'big': draw(gen.big_tree(depths=(2, 2, 3), m=(3, 12), nf=(2, 8), ns=(5, 20),
                                     nc=(3, 7), top=260)),
            'odd_costs': 1, 'lazy': draw(S([False, False, True])),
            'rowmode': draw(S(['own', 'own', 'aggressive', 'plain'])),
            'rounds': draw(S([1, 4, 12, 30])), 'solver': draw(S(['glop', 'glop', 'clp'])),
            'stride': [draw(I(1, 5)), draw(I(0, 4)), 0], 'cseed': draw(I(0, 10 ** 6)),
            'early': draw(I(30, 140)), 'no': draw(I(1, 20)), 'xored': draw(S([0, 1, 1]))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'], trees=rnd_trees(c))
    out.update({k: v for k, v in c.items() if k != 'big'}, xor=None)
    nn = 2 ** out['d'] - 1
    if c['xored']:
        out['xor'] = [[[rnd.choice((0, 1, 1)) for _ in range(nn)], rnd.randrange(2),
                       rnd.randint(2, 6)] for _ in range(2 ** out['d'])]
        if rnd.randrange(3):
            for leaf in range(0, 2 ** out['d'], 2):
                par = ref.leaf_path(out['d'], leaf)[-1][0]
                for k in (0, 1):
                    out['xor'][leaf + k][0] = [1 if n in (0, par) else 0 for n in range(nn)]
                    out['xor'][leaf + k][1] = k
    if 'waves' in c:
        out['ops'] = [op for _ in range(c['waves'])
                      for op in (['wave'], ['solve', rnd.choice([10, 10, 20])])]
        return out
    ops = [['solve', 10]]
    for _ in range(c['no']):
        x = rnd.randrange(6)
        if x < 4:
            for _ in range(rnd.randint(1, 12)):
                leaf = rnd.randrange(2 ** out['d'])
                ops.append(['add', leaf, [[n, rnd.choice(out['cands'][n])]
                                          for n, _ in ref.leaf_path(out['d'], leaf)],
                            rnd.randrange(9)])
        elif x == 4:
            ops.append(['hold', rnd.randint(1, 3)])
        ops.append(['solve', rnd.choice([1, 1, 3, 10])])
    if rnd.randrange(2):
        ops.append(['rest'])
    out['ops'] = ops + [['solve', 1]]
    return out


@st.composite
def wave_cases(draw):
    """Waves of paths with new contradicting costs: dozens of cuts."""
    return {'big': draw(gen.big_tree(depths=(2, 2, 3, 3), m=(2, 5), nf=(6, 30), ns=(8, 40),
                                     nc=(4, 12), top=260, vals='real')),
            'odd_costs': 1, 'lazy': draw(S([False, False, True])), 'rowmode': 'own',
            'rounds': 1000, 'solver': draw(S(['glop', 'glop', 'glop', 'clp'])),
            'stride': [1, 0, 5], 'cseed': draw(I(0, 10 ** 6)), 'no': 1, 'xored': 1,
            'waves': draw(I(3, 30)), 'wave_paths': draw(S([8, 8, 12, 40]))}


def wave(c, t, rnd, base):
    """Paths of a new parity pattern, dearer than all before."""
    nn = 2 ** t.depth - 1
    cands = [rnd.sample(cs, min(len(cs), 2)) for cs in t.td.cands]
    out = []
    for leaf in range(2 ** t.depth):
        nodes = [n for n, _ in ref.leaf_path(t.depth, leaf)]
        par = nodes[-1] if rnd.randrange(3) else nodes[0]
        flip = leaf % 2 if rnd.randrange(4) else rnd.randrange(2)
        w = rnd.randint(2, 6)
        some = [dict(zip(nodes, v)) for v in
                itertools.product(*[cands[n] for n in nodes])]
        for assign in rnd.sample(some, min(len(some), c['wave_paths'])):
            bit = sum(cands[n].index(s) for n, s in assign.items() if n in (0, par))
            p = t.path(leaf, assign)
            p.cost = base + (w if (bit + flip) % 2 else 0)
            out.append(p)
    return out


def rnd_trees(c):
    return 1 + c['cseed'] % 4


def cut_check(c, cut):
    need(len(cut) == len(c['splits']), 'cut %s for %d splits', cut, len(c['splits']))
    for i, (f, s) in enumerate(c['splits']):
        for j, (g, u) in enumerate(c['splits']):
            if f == g and s < u:
                need(not cut[i] or cut[j], 'cut %s answers left at %s <= %g and right at '
                     '<= %g', cut, f, s, u)


def cost_of(c, leaf, assign):
    if c['xor'] is None:
        key = '%d %d %s' % (c['cseed'], leaf, sorted(assign.items()))
        return COSTS[zlib.crc32(key.encode()) % len(COSTS)]
    coef, bit, weight = c['xor'][leaf]
    par = sum(coef[n] * c['cands'][n].index(s) for n, s in assign.items()) + bit
    return weight if par % 2 else 0


def pool(c, t):
    out = []
    rest = []
    i = 0
    a, b, k = c['stride']
    for leaf in range(2 ** t.depth):
        for assign in t.td.paths(leaf):
            i += 1
            p = t.path(leaf, assign)
            if c['odd_costs']:
                p.cost = cost_of(c, leaf, assign)
            if (i * a + b) % 5 < k or len(out) > 150:
                rest.append(p)
            else:
                out.append(p)
    # the paths of the different leaves mixed
    if 'early' in c:
        out.sort(key=lambda p: zlib.crc32(b'%d %s' % (c['cseed'], repr(
            (p.leaf_id, p.splits)).encode())))
        rest = out[c['early']:] + rest
        out = out[:c['early']]
    return out, rest


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t = session(c, rec)
    if c.get('again'):
        # another master, of other costs, over the splits of the first one
        xor = c['xor'] and c['xor'][1:] + c['xor'][:1]
        session(dict(c, xor=xor, cseed=c['cseed'] + 1), rec, t)


def session(c, rec, old=None):
    t, known, init = make(c)
    if old:
        t.splits, t.nodes, t.leaves = old.splits, old.nodes, old.leaves
    if c['odd_costs']:
        known = trees.Known(t.td)
        for p in init:
            p.cost = cost_of(c, p.leaf_id, sut.assign_of(p))
            known.add_path(p)
    mp = DTreeMasterProblem(init, t.leaves, t.nodes, t.splits,
                            beta_constraints_as_cuts=c['lazy'], generate_cuts=True,
                            num_cuts_round=c['rounds'], solver_type=c['solver'],
                            data_rows=rows_for(c['rowmode'], t))
    mp.generate_mp(t.X, t.y)
    heur = DTreeSubProblemHeuristic(t.leaves, t.nodes, t.splits, t.td.classes, t.depth)
    cuts = []
    later, rest = pool(c, t)

    def add(p):
        need(mp.add_column(p) is True, 'path refused')
        known.add_path(p)
        if cuts:
            rec.label('path after cut')
            rec.nt()
    held = []
    waves = 0
    for p in later:
        # every fourth path arrives later
        if len(held) < 8 and len(known.paths) % 4 == 3:
            held.append(p)
            known.paths.append(None)
        else:
            add(p)
    known.paths = [p for p in known.paths if p is not None]

    def solve():
        duals = mp.solve_rmp('')
        what = 'solve with %d paths, %d cuts' % (len(known.paths), len(cuts))
        need(len(duals) == 5, '%s: duals %r', what, duals)
        heur.update_subproblem(t.X, t.y, duals)
        for cut in duals[4]:
            cut_check(c, list(cut))
            cuts.append([bool(v) for v in cut])
        trees.shape_check(t.td, duals, cuts, what)
        return duals, what
    for op in c['ops']:
        if op[0] == 'add':
            p = t.path(op[1], {n: s for n, s in op[2]})
            if c['odd_costs']:
                p.cost = op[3]
            add(p)
            continue
        if op[0] == 'wave':
            waves += 1
            for p in wave(c, t, random.Random('%d %d' % (c['cseed'], waves)), 3 * waves):
                add(p)
            continue
        if op[0] == 'rest':
            for p in held + rest[:80]:
                add(p)
            held = []
            rec.lab(len(cuts) > 2, 'many paths after three cuts')
            continue
        if op[0] == 'hold':
            for p in held[:op[1]]:
                add(p)
            del held[:op[1]]
            continue
        for _ in range(op[1]):
            n0 = len(cuts)
            duals, what = solve()
            if cuts and len(cuts) == n0:
                rec.label('solve after cut')
                rec.nt()
        low = ref.path_lp(t.td, known.paths, cuts=cuts)
        if low is None:
            need(False, '%s: cuts %s exclude every tree', what, cuts)
        if c['lazy']:
            high = ref.path_lp(t.td, known.paths, rows=False, cuts=cuts)
            trees.feasible(known, duals, cuts, what)
            v = trees.objective(duals)
            need(low - ref.TOL * max(1, low) <= v <= high + ref.TOL * max(1, high),
                 '%s: LP value %g outside [%g, %g]', what, v, low, high)
        else:
            trees.check_lp(known, duals, cuts, low, what)
            if cuts:
                plain = ref.path_lp(t.td, known.paths)
                need(low <= plain + ref.TOL * max(1, plain),
                     'cuts improve the LP from %g to %g', plain, low)
                rec.lab(low < plain - 1e-6, 'cuts tighten the LP')
    best = ref.best_selection(t.td, known.paths)
    mp.solve_ip('')
    cost = sum(p.cost for p in mp.selected_paths)
    need(abs(cost - best) < 1e-6, 'with %d cuts the integer master selects cost %g, the '
         'best tree over the known paths has %g', len(cuts), cost, best)
    rec.lab(cuts, 'cut generated')
    rec.lab(len(cuts) > 1, 'several cuts')
    rec.lab(len(cuts) > 12, 'more than 12 cuts')
    rec.lab(len(cuts) > 32, 'more than 32 cuts')
    rec.lab(len(known.paths) > 150, 'more than 150 paths')
    rec.lab(c['lazy'], 'lazy rows')
    rec.lab(old and cuts, 'cuts of a second master')
    return t


CAMPAIGNS = [
    Campaign('history', cases(), check, quick=1400),
    Campaign('large', large_cases(), check, quick=120),
    Campaign('waves', wave_cases(), check, quick=80),
]
