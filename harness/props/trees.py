"""Shared oracles for the tree master."""
import ref
from core import need
from ref import TOL


class Known:
    """The paths a master was given, as (leaf, assign, cost) with row masks."""

    def __init__(self, td):
        self.td = td
        self.paths = []
        self.masks = []

    def add(self, leaf, assign, cost):
        self.paths.append((leaf, dict(assign), float(cost)))
        self.masks.append(ref.bits(self.td.rows(leaf, assign)))

    def add_path(self, p):
        self.add(p.leaf_id, dict(zip(p.node_ids, p.splits)), p.cost)


def reduced(td, leaf, assign, cost, duals, cuts, rows=None):
    v = cost - duals[0][leaf]
    if rows is None:
        rows = ref.bits(td.rows(leaf, assign))
    for r in rows:
        v -= duals[1][r]
    for n, s in assign.items():
        v -= duals[2][leaf][n][s]
    for d, cut in zip(duals[3], cuts):
        if ref.agrees(td.depth, leaf, assign, cut):
            v -= d
    return v


def shape_check(td, duals, cuts, what):
    need(isinstance(duals, tuple) and len(duals) == 5, '%s: duals %r', what, duals)
    leaf, row, ns, cut, _ = duals
    need(len(leaf) == 2 ** td.depth, '%s: %d leaf duals', what, len(leaf))
    need(len(row) == td.n, '%s: %d row duals for %d rows', what, len(row), td.n)
    need(len(cut) == len(cuts), '%s: %d cut duals for %d reported cuts', what, len(cut),
         len(cuts))
    for l in range(2 ** td.depth):
        for n, _ in ref.leaf_path(td.depth, l):
            for s in td.cands[n]:
                need(s in ns[l][n], '%s: no dual for leaf %d, node %d, split %d', what, l,
                     n, s)


def feasible(known, duals, cuts, what):
    """Dual feasibility for the known paths and the split variables."""
    td = known.td
    scale = max(1.0, td.n)
    for r, v in enumerate(duals[1]):
        need(v >= -TOL * scale, '%s: dual %g of row %d', what, v, r)
    for (leaf, assign, cost), rows in zip(known.paths, known.masks):
        rc = reduced(td, leaf, assign, cost, duals, cuts, rows)
        need(rc <= TOL * scale, '%s: path leaf=%d %s cost=%g has reduced cost %g', what,
             leaf, assign, cost, rc)
    for n, cs in enumerate(td.cands):
        ls = [l for l in range(2 ** td.depth) if n in dict(ref.leaf_path(td.depth, l))]
        for s in cs:
            t = sum(duals[2][l][n][s] for l in ls)
            need(t <= TOL * scale, '%s: split %d at node %d violates its dual constraint '
                 'by %g', what, s, n, t)


def objective(duals):
    return sum(duals[0]) + sum(duals[1]) + sum(duals[3])


def check_lp(known, duals, cuts, lp, what):
    shape_check(known.td, duals, cuts, what)
    feasible(known, duals, cuts, what)
    obj = objective(duals)
    need(ref.close(obj, lp), '%s: dual objective %g, LP optimum %g', what, obj, lp)
