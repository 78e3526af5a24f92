import zlib

from hypothesis import strategies as st

import gen
import ref
import sut
from core import Campaign, attr, need
from gen import I, S
from props.c11 import rows_for
from sut import DTreeMasterProblem

RULE = ('Pools of 1-3 complete trees plus further candidate paths (initial or added '
        'later, also repeated), true or arbitrary costs, integer solves at generated '
        'points with or without LP solves and cuts before. Non-trivial: depth >= 2, the '
        'best path of every leaf taken alone is inconsistent (the bound by leaf is not '
        'reached) and the best selection beats the first tree.')
ASSUMPTIONS = ['Brute force over all consistent selections. The initial paths contain a '
               'complete tree, as the class documentation demands.']


@st.composite
def cases(draw):
    c = draw(gen.tree_with_paths(max_rows=12, min_rows=2, depths=(1, 2, 2, 2, 3, 3),
                                 max_splits=5, trees=3, wide_cands=draw(gen.B)))
    c['cost'] = draw(S(['true', 'true', 'hash', 'big']))
    c['cseed'] = draw(I(0, 10 ** 6))
    c['rowmode'] = draw(S(['own', 'own', 'aggressive', 'plain']))
    c['lazy'], c['gen'] = draw(S([[False, False], [False, False], [True, False],
                                  [True, True], [False, True]]))
    c['solver'] = draw(S(['glop', 'glop', 'clp']))
    ops = []
    for _ in range(draw(I(0, 14))):
        x = draw(I(0, 13))
        if x >= 12:
            # the same branching with another class and value
            ops.append(['retarget', draw(I(0, 20)), draw(S([-2, -1, 1, 1, 2, 3]))])
            if draw(gen.B):
                ops.append(['ip'])
        elif x <= 7:
            leaf = draw(I(0, 2 ** c['d'] - 1))
            asg = [[n, draw(S(c['cands'][n]))] for n, _ in ref.leaf_path(c['d'], leaf)]
            ops.append(['add', leaf, asg])
        elif x == 8:
            ops.append(['again', draw(I(0, 20))])
        elif x == 9:
            ops.append(['lp', draw(S([1, 10]))])
        elif x == 10:
            ops.append(['bulk', draw(I(1, 4)), draw(I(0, 4)), draw(I(0, 3))])
        else:
            ops.append(['ip'])
    ops.append(['ip'])
    c['ops'] = ops
    c['late'] = draw(I(0, 2))
    return c


@st.composite
def large_cases(draw):
    return {'big': draw(gen.big_tree(depths=(2, 3, 3, 4), m=(10, 60), nc=(2, 4))),
            'cost': draw(S(['true', 'hash', 'big'])),
            'rowmode': draw(S(['own', 'aggressive', 'normal'])),
            'gen': draw(gen.B), 'solver': draw(S(['glop', 'glop', 'clp'])),
            'nt': draw(I(1, 6)), 'na': draw(S([5, 40, 150]))}


def expand(c):
    out, rnd = gen.expand_tree(c['big'], trees=c['nt'])
    out.update({k: v for k, v in c.items() if k != 'big'}, lazy=False,
               cseed=rnd.randrange(10 ** 6), late=rnd.randrange(3))
    ops = []
    for _ in range(rnd.randint(1, c['na'])):
        leaf = rnd.randrange(2 ** out['d'])
        ops.append(['add', leaf, [[n, rnd.choice(out['cands'][n])]
                                  for n, _ in ref.leaf_path(out['d'], leaf)]])
        if rnd.randrange(8) == 0:
            ops.append(['retarget', rnd.randrange(200), rnd.choice([-2, -1, 1, 3])])
        if rnd.randrange(15) == 0:
            ops.append(rnd.choice([['lp', 1], ['ip'], ['again', rnd.randrange(200)]]))
    if rnd.randrange(2):
        # complete trees, in mixed order
        more = []
        for _ in range(rnd.randint(1, 8)):
            a = [rnd.choice(x) for x in out['cands']]
            more += [['add', l, [[n, a[n]] for n, _ in ref.leaf_path(out['d'], l)]]
                     for l in range(2 ** out['d'])]
        rnd.shuffle(more)
        ops += more
    out['ops'] = ops + [['ip']]
    return out


def cost_of(c, leaf, a, true):
    if c['cost'] == 'true':
        return true
    h = zlib.crc32(('%d %d %s' % (c['cseed'], leaf, sorted(a.items()))).encode())
    return h % 6 if c['cost'] == 'hash' else h % 1000


def judge(t, paths, mp, what, rec):
    sel = list(attr(mp, 'selected_paths'))
    L = 2 ** t.depth
    need(sorted(p.leaf_id for p in sel) == list(range(L)),
         '%s: selected paths end in the leaves %s', what, sorted(p.leaf_id for p in sel))
    at = {}
    for p in sel:
        for n, s in sut.assign_of(p).items():
            need(at.setdefault(n, s) == s, '%s: node %d uses the splits %d and %d', what, n,
                 at[n], s)
    pool = {(l, tuple(sorted(a.items())), k) for l, a, k in paths}
    for p in sel:
        need((p.leaf_id, tuple(sorted(sut.assign_of(p).items())), p.cost) in pool,
             '%s: selected path leaf=%d %s cost %g was never given', what, p.leaf_id,
             sut.assign_of(p), p.cost)
    best = ref.best_selection(t.td, paths)
    cost = sum(p.cost for p in sel)
    need(abs(cost - best) < 1e-6, '%s: selection of cost %g, the best one has %g', what,
         cost, best)
    top = {}
    for l, _, k in paths:
        top[l] = max(top.get(l, 0), k)
    rec.lab(best < sum(top.values()), 'best paths conflict')
    return best, sum(top.values())


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t = sut.TreeSUT(c)
    paths, objs = [], []

    def put(p):
        a = sut.assign_of(p)
        p.cost = cost_of(c, p.leaf_id, a, p.cost)
        paths.append((p.leaf_id, a, p.cost))
        objs.append(p)
        return p
    init = []
    n_init = max(1, len(c['trees']) - c['late'])
    for a in c['trees'][:n_init]:
        init += [put(p) for p in t.tree_paths(a)]
    mp = DTreeMasterProblem(init, t.leaves, t.nodes, t.splits,
                            beta_constraints_as_cuts=c['lazy'], generate_cuts=c['gen'],
                            num_cuts_round=2, solver_type=c['solver'],
                            data_rows=rows_for(c['rowmode'], t))
    mp.generate_mp(t.X, t.y)
    first = sum(p.cost for p in init[:2 ** t.depth])
    late = [p for a in c['trees'][n_init:] for p in t.tree_paths(a)]
    for p in late:
        need(mp.add_column(put(p)) is True, 'path refused')
    for op in c['ops']:
        if op[0] == 'add':
            p = t.path(op[1], {n: s for n, s in op[2]})
            need(mp.add_column(put(p)) is True, 'path refused')
        elif op[0] == 'again':
            q = objs[op[1] % len(objs)]
            p = sut.make_path(t.depth, q.leaf_id, sut.assign_of(q), q.target, q.cost)
            need(mp.add_column(p) is True, 'path refused')
            paths.append((p.leaf_id, sut.assign_of(p), p.cost))
            objs.append(p)
            rec.label('repeated path')
        elif op[0] == 'retarget':
            q = objs[op[1] % len(objs)]
            k = len(t.td.classes)
            p = sut.make_path(t.depth, q.leaf_id, sut.assign_of(q),
                              t.td.classes[(t.td.classes.index(q.target) + 1) % k],
                              max(0, q.cost + op[2]))
            need(mp.add_column(p) is True, 'path refused')
            paths.append((p.leaf_id, sut.assign_of(p), p.cost))
            objs.append(p)
            rec.label('same path with another class')
        elif op[0] == 'bulk':
            i = 0
            for leaf in range(2 ** t.depth):
                for a in t.td.paths(leaf):
                    i += 1
                    if (i * op[1] + op[2]) % 5 >= op[3] and len(paths) < 50:
                        need(mp.add_column(put(t.path(leaf, a))) is True, 'path refused')
        elif op[0] == 'lp':
            for _ in range(op[1]):
                mp.solve_rmp('')
        else:
            need(mp.solve_ip('') is True, 'integer solve failed')
            best, top = judge(t, paths, mp, '%d paths' % len(paths), rec)
            rec.nt(t.depth > 1 and best < top and best > first)
    rec.label('depth %d' % t.depth, 'cost ' + c['cost'])


CAMPAIGNS = [
    Campaign('pool', cases(), check, quick=3200),
    Campaign('large', large_cases(), check, quick=160),
]
