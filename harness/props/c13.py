from hypothesis import strategies as st

import gen
import ref
import sut
from boot import REAL_MONO
from core import Campaign, attr, need
from gen import I, S
from props.c11 import rows_for
from sut import DTreeSubProblem, dtmod

RULE = ('Depth 1-3, generated data, candidates, one leaf, rows raw / annotated / '
        'aggregated with weights, a history of 1-4 rounds of duals (leaf, row, split and '
        'cut duals, new cuts per round; fresh or the round before permuted), some rounds only updated and not priced. '
        'Non-trivial: a priced round after an earlier round whose maximum is positive '
        'and whose best path is not the best of the first round, or with active cuts '
        'or merged rows.')
ASSUMPTIONS = ['Duals of removed rows are 0 and row duals are not negative, as the master '
               'produces them. A CP-SAT solve that took 0.9 s or more without proving optimality (gap > 0 '
               'recorded; its limit is 2 s) is only held to the validity of its paths.',
               'Solvers sat (default) and cbc. SCIP is left out: its incremental '
               'interface in this OR-Tools build gives wrong answers and crashes.',
               'Brute force over all split choices and classes, tolerance 3e-4 (CP-SAT) or 1e-3 (MIP gap).']


@st.composite
def duals_round(draw, c, k, prev=None):
    n, ns = len(c['X']), len(c['splits'])
    r = {}
    style = draw(S(['mixed', 'mixed', 'rows', 'splits', 'cuts', 'zero']))
    fine = draw(S([8, 8, 8, 3, 7, 997]))
    hi = draw(S([1, 2]))

    def val(lo, up, zero):
        if draw(I(0, 9)) < zero:
            return 0.0
        return draw(I(int(lo * fine), int(up * fine))) / fine
    r['row'] = [val(0, hi, 4 if style in ('mixed', 'rows') else 9) for _ in range(n)]
    r['ns'] = []
    for j, _ in ref.leaf_path(c['d'], c['leaf']):
        z = 4 if style in ('mixed', 'splits') else 9
        r['ns'].append([j, [val(-hi, hi, z) for _ in c['cands'][j]]])
    new = []
    for _ in range(draw(S([0, 0, 0, 1, 1, 2]))):
        x = [draw(S([-4.0, -1.0, -0.25, 0.0, 0.3, 0.5, 1.0, 1.5, 2.0, 2.5, 6.0, 9.5]))
             for _ in range(len(c['X'][0]))]
        new.append([bool(x[f] <= t) for f, t in c['splits']])
    r['new'] = new
    k += len(new)
    z = 2 if style in ('mixed', 'cuts') else 9
    r['cut'] = [val(-2, 3, z) for _ in range(k)]
    if prev and draw(I(0, 2)) == 0:
        # related to the round before
        how = draw(S(['all', 'row', 'split', 'cut']))
        r['row'] = gen.vary(draw, prev['row']) if how in ('all', 'row') else prev['row']
        same = [x[0] for x in r['ns']] == [x[0] for x in prev['ns']]
        if same:
            r['ns'] = [[j, gen.vary(draw, vs) if how in ('all', 'split') else list(vs)]
                       for j, vs in prev['ns']]
        old = prev['cut'] if how not in ('all', 'cut') else gen.vary(draw, prev['cut'])
        r['cut'] = list(old) + r['cut'][len(old):]
    r['delta'] = draw(S([-1.0, 0.0, 0.0, 0.004, 0.125, 0.5, 1.0, 2.0, 5.0]))
    r['price'] = draw(S([True, True, True, False]))
    return r, k


@st.composite
def cases(draw, kind='sat'):
    c = draw(gen.tree_data(max_rows=10, min_rows=2, depths=(1, 2, 2, 2, 3),
                           max_splits=5, wide_cands=draw(gen.B)))
    c['kind'] = kind
    c['solver'] = draw(S(['sat', 'sat', 'sat', 'cbc']))
    c['leaf'] = draw(I(0, 2 ** c['d'] - 1))
    c['rowmode'] = draw(S(['own', 'aggressive', 'aggressive', 'plain', 'normal']))
    c['style'] = {}
    if kind == 'sat' and draw(S([True, True, False])):
        c['style'] = {'num_search_workers': draw(S([1, 1, 1, 2, 4])),
                      'random_seed': draw(I(0, 99)),
                      'cp_model_presolve': draw(S([False, False, True])),
                      'linearization_level': draw(S([0, 0, 1, 2])),
                      'search_branching': draw(S([0, 1, 1, 2, 5, 6])),
                      'randomize_search': draw(gen.B)}
    c['rounds'] = []
    k = 0
    for _ in range(draw(I(1, 4))):
        r, k = draw(duals_round(c, k, c['rounds'][-1] if c['rounds'] else None))
        c['rounds'].append(r)
    c['rounds'][-1]['price'] = True
    return c


def random_round(rnd, c, k, leaves, deltas=(-1.0, 0.0, 0.004, 0.125, 0.5, 1.0, 3.0)):
    """Like duals_round, from a random generator; 'ns' per leaf of leaves."""
    n = len(c['X'])
    p = {x: rnd.choice([0.1, 0.4, 0.9]) for x in ('row', 'ns', 'cut')}
    fine = rnd.choice([8, 8, 8, 3, 997])
    hi = rnd.choice([0.5, 1, 2])

    def val(lo, up, what):
        if rnd.random() > p[what]:
            return 0.0
        return rnd.randint(int(lo * fine), int(up * fine)) / fine
    new = []
    for _ in range(rnd.choice([0, 0, 1, 2, 4])):
        x = c['X'][rnd.randrange(n)] if rnd.randrange(2) else \
            [rnd.uniform(-4, 12) for _ in c['X'][0]]
        new.append([bool(x[f] <= t) for f, t in c['splits']])
    k += len(new)
    return {'row': [val(0, hi, 'row') for _ in range(n)],
            'ns': [[[j, [val(-hi, hi, 'ns') for _ in c['cands'][j]]]
                    for j, _ in ref.leaf_path(c['d'], leaf)] for leaf in leaves],
            'new': new, 'cut': [val(-2, 3, 'cut') for _ in range(k)],
            'delta': [rnd.choice(deltas) for _ in leaves],
            'price': rnd.randrange(4) > 0}, k


@st.composite
def large_cases(draw):
    return {'big': draw(gen.big_tree(depths=(2, 3, 3, 4), m=(15, 60), nc=(2, 4))),
            'kind': draw(S(['sat', 'sat', 'mip', 'old'])), 'solver': draw(S(['sat', 'sat', 'cbc'])),
            'rowmode': draw(S(['own', 'aggressive', 'aggressive', 'normal'])),
            'nr': draw(I(1, 4))}


@st.composite
def search_cases(draw):
    """Few nodes with many candidates: the solver finds its optimum in many steps."""
    return {'big': draw(gen.big_tree(depths=(2, 2, 1), m=(30, 70), nf=(2, 6), ns=(15, 30),
                                     nc=(8, 20), k=(2, 4))),
            'kind': draw(S(['sat', 'sat', 'sat', 'mip'])), 'solver': 'sat',
            'rowmode': draw(S(['own', 'aggressive'])), 'nr': draw(I(1, 2)),
            'deltas': [0.5, 5.0, 50.0, 1000.0, 1000.0]}


@st.composite
def long_cases(draw):
    """Many rounds on one subproblem, many cuts."""
    return {'big': draw(gen.big_tree(depths=(1, 2, 2), m=(5, 20), nf=(1, 4), ns=(2, 6),
                                     k=(2, 3), nc=(2, 4), top=300)),
            'kind': draw(S(['sat', 'sat', 'mip', 'old'])), 'solver': draw(S(['sat', 'cbc'])),
            'rowmode': draw(S(['own', 'aggressive', 'normal'])), 'nr': draw(I(6, 30))}


@st.composite
def tie_cases(draw):
    """The best paths are nearly equal and differ in one node."""
    return {'big': draw(gen.big_tree(depths=(1, 2, 2, 3), m=(5, 30), nf=(1, 4), ns=(3, 9),
                                     nc=(2, 5), top=400)),
            'kind': draw(S(['sat', 'sat', 'mip', 'old'])), 'solver': draw(S(['sat', 'cbc'])),
            'rowmode': draw(S(['own', 'aggressive', 'normal'])), 'nr': draw(I(1, 3)),
            'ties': draw(S([997, 499, 331, 173])), 'deltas': [0.125, 0.5, 1.0]}


def tie(out, r, rnd, fine):
    """Split duals that level the paths around one, up to a few steps of 1/fine."""
    td = ref.TreeData(out['d'], out['X'], out['y'], out['splits'], out['cands'])
    a = {n: rnd.choice(out['cands'][n]) for n, _ in ref.leaf_path(out['d'], out['leaf'])}
    node = rnd.choice(sorted(a))
    r['cut'] = [0.0] * len(r['cut'])
    r['row'] = [round(v * fine / 4) / fine for v in r['row']]
    for j, vs in r['ns']:
        for i, s in enumerate(out['cands'][j]):
            if j != node:
                vs[i] = -30.0 if s == a[j] else 0.0
                continue
            m = td.rows(out['leaf'], {**a, j: s})
            v = max(td.count(m, g) for g in td.classes)
            vs[i] = v - sum(r['row'][q] for q in ref.bits(m)) - rnd.randint(0, 12) / fine


def expand(c):
    out, rnd = gen.expand_tree(c['big'])
    out.update({k: v for k, v in c.items() if k != 'big'}, style={})
    out['leaf'] = rnd.randrange(2 ** out['d'])
    out['rounds'] = []
    k = 0
    for _ in range(c['nr']):
        r, k = random_round(rnd, out, k, [out['leaf']], *([c['deltas']] if 'deltas' in c else []))
        r['ns'], r['delta'] = r['ns'][0], r['delta'][0]
        if c['nr'] > 5 and out['rounds'] and rnd.randrange(2):
            # only a part differs from the round before
            prev, what = out['rounds'][-1], rnd.choice(['row', 'ns', 'cut'])
            for x in ('row', 'ns'):
                if x != what:
                    r[x] = prev[x]
            if what != 'cut':
                r['cut'] = prev['cut'] + r['cut'][len(prev['cut']):]
        if 'ties' in c:
            tie(out, r, rnd, c['ties'])
        out['rounds'].append(r)
    out['rounds'][-1]['price'] = True
    return out


def check(c, rec):
    if 'big' in c:
        c = expand(c)
    t = sut.TreeSUT(c)
    td = t.td
    leaf = c['leaf']
    rows = rows_for(c['rowmode'], t)
    gone = {r for r in range(td.n) if rows and (rows[r].removed_from_sp
                                                or rows[r].removed_from_master)}
    merged = rows and any(r.removed_from_sp for r in rows)
    targets = sut.listed(td.classes, len(c['X']))
    if c['kind'] == 'sat':
        sps = [dtmod.DTreeSubProblemSat(t.leaves[leaf], t.nodes, t.splits, targets,
                                        t.depth, data_rows=rows)]
        groups = [targets]
    elif c['kind'] == 'mip':
        sps = [DTreeSubProblem(t.leaves[leaf], t.nodes, t.splits, targets, t.depth,
                               data_rows=rows, solver_str=c['solver'])]
        groups = [targets]
    else:
        sps = [dtmod.DTreeSubProblemOld(t.leaves[leaf], t.nodes, t.splits, g, t.depth,
                                        data_rows=rows, solver_str=c['solver'])
               for g in targets]
        groups = [[g] for g in targets]
    nodes = {n for n, _ in ref.leaf_path(t.depth, leaf)}
    cuts = []
    allp = []
    for assign in td.paths(leaf):
        m = td.rows(leaf, assign)
        allp.append((assign, ref.bits(m), [td.count(m, g) for g in targets]))
    first_best = None
    eps = 3e-4 if c['kind'] == 'sat' else 1e-3
    for ri, r in enumerate(c['rounds']):
        cuts += r['new']
        row = [0.0 if i in gone else v for i, v in enumerate(r['row'])]
        ns = {l: {n: {s: 0.0 for s in c['cands'][n]} for n, _ in ref.leaf_path(t.depth, l)}
              for l in range(2 ** t.depth)}
        for n, vs in r['ns']:
            for s, v in zip(c['cands'][n], vs):
                ns[leaf][n][s] = v

        def base(assign, rr):
            v = -sum(row[i] for i in rr) - sum(ns[leaf][n][s] for n, s in assign.items())
            for d, cut in zip(r['cut'], cuts):
                if ref.agrees(t.depth, leaf, assign, cut):
                    v -= d
            return v
        bases = [base(a, rr) for a, rr, _ in allp]
        top = max(b + max(cnt) for b, (_, _, cnt) in zip(bases, allp))
        ld = top - r['delta']
        leafd = [0.5] * (2 ** t.depth)
        leafd[leaf] = ld
        duals = (leafd, row, ns, list(r['cut']), [list(x) for x in r['new']])
        for sp in sps:
            sp.update_subproblem(t.X, t.y, duals)
        if not r['price']:
            rec.label('update only')
            continue
        for sp, group in zip(sps, groups):
            idx = [targets.index(g) for g in group]
            best = max(b + max(cnt[i] for i in idx)
                       for b, (_, _, cnt) in zip(bases, allp)) - ld
            start = REAL_MONO()
            with sut.solver_style(c.get('style')):
                got = sp.generate_columns(t.X, t.y, duals, '')
            what = 'round %d, leaf %d, targets %s, maximum %g' % (ri, leaf, group, best)
            top_got = None
            for p in got:
                need(p.leaf_id == leaf, '%s: path of leaf %s', what, p.leaf_id)
                need(len(p.node_ids) == len(p.splits) == t.depth
                     and set(p.node_ids) == nodes, '%s: nodes %s splits %s', what,
                     p.node_ids, p.splits)
                a = sut.assign_of(p)
                need(all(a[n] in c['cands'][n] for n in nodes),
                     '%s: %s uses splits that are no candidates', what, a)
                need(p.target in group, '%s: target %r', what, p.target)
                m = td.rows(leaf, a)
                true = td.count(m, p.target)
                need(abs(p.cost - true) < 1e-4, '%s: path %s target %d has cost %g, %d rows '
                     'follow it with this class', what, a, p.target, p.cost, true)
                rc = base(a, ref.bits(m)) + true - ld
                need(rc > -eps, '%s: path %s target %d has reduced cost %g', what, a,
                     p.target, rc)
                rec.lab(len(got) > 1, 'several paths reported')
                if top_got is None or rc > top_got:
                    top_got = rc
            if best <= 1e-9:
                if best < -eps or on_grid(r):
                    need(not got, '%s: %d paths reported', what, len(got))
            # the limit of a CP-SAT solve is 2 s
            exact = c['kind'] != 'sat' or attr(sp, 'gaps_')[-1] == 0 \
                or REAL_MONO() - start < 0.9
            rec.lab(not exact, 'not proven optimal')
            if best > eps and exact:
                need(got, '%s: nothing reported', what)
                need(top_got >= best - eps, '%s: best reported path has %g', what, top_got)
                arg = [i for i, (b, (_, _, cnt)) in enumerate(zip(bases, allp))
                       if b + max(cnt[i2] for i2 in idx) - ld >= best - 1e-9]
                rec.label('positive maximum')
                if first_best is None:
                    first_best = set(arg)
                changed = not (first_best & set(arg))
                act = any(d and any(ref.agrees(t.depth, leaf, a, cut) for a, _, _ in allp)
                          for d, cut in zip(r['cut'], cuts))
                rec.lab(changed, 'best path changed')
                rec.lab(act, 'active cuts')
                rec.lab(merged, 'merged rows')
                rec.nt(len(allp) > 1 and ((ri > 0 and changed) or act or bool(merged)))
            elif exact:
                rec.label('no improving path')
    rec.label('depth %d' % t.depth)
    rec.lab(len(cuts) > 12, 'more than twelve cuts')


def on_grid(r):
    vals = r['row'] + r['cut'] + [v for _, vs in r['ns'] for v in vs]
    return all(v * 8 == int(v * 8) for v in vals)


CAMPAIGNS = [
    Campaign('sat', cases(kind='sat'), check, quick=900),
    Campaign('mip', cases(kind='mip'), check, quick=700),
    Campaign('old', cases(kind='old'), check, quick=300),
    Campaign('large', large_cases(), check, quick=120),
    Campaign('long', long_cases(), check, quick=80),
    Campaign('search', search_cases(), check, quick=64),
    Campaign('ties', tie_cases(), check, quick=160),
]
