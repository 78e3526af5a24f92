"""Reference oracles. Nothing here imports the package under test."""
import itertools

import numpy as np
from scipy.optimize import Bounds, LinearConstraint, linprog, milp

TOL = 1e-4


def solve_lp(c, **kw):
    """A bounded LP. HiGHS can report a wrong status: solving without presolve decides then."""
    for method, presolve in (('highs', True), ('highs-ds', False), ('highs-ipm', False)):
        r = linprog(c, method=method, options={'presolve': presolve}, **kw)
        if r.status == 0:
            return r
    return r


def close(a, b, tol=TOL):
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


# ---------------------------------------------------------------- rules ----
def cmask(clause):
    m = 0
    for j in clause:
        m |= 1 << j
    return m


def covers(row, clause):
    m = cmask(clause)
    return (row & m) == m


def matrix(rows, n):
    """Bit masks to a 0/1 list of lists."""
    return [[(r >> j) & 1 for j in range(n)] for r in rows]


def all_clauses(n, D, empty=True):
    return [list(c) for k in range(0 if empty else 1, min(n, D) + 1)
            for c in itertools.combinations(range(n), k)]


def neg_cost(rows, y, clause):
    m = cmask(clause)
    return sum(1 for r, t in zip(rows, y) if t == 0 and (r & m) == m)


def reduced_cost(rows, y, clause, lam, mu):
    """mu: one dual per positive row, in row order."""
    m = cmask(clause)
    rc = lam * (len(clause) + 1)
    k = 0
    for r, t in zip(rows, y):
        hit = (r & m) == m
        if t == 1:
            if hit:
                rc -= mu[k]
            k += 1
        elif hit:
            rc += 1
    return rc


def rule_lp(rows, y, clauses, C, p):
    """Optimal value of the rule LP over the given clauses."""
    P = [r for r, t in zip(rows, y) if t == 1]
    nP = len(P)
    c = np.array([float(p)] * nP + [float(neg_cost(rows, y, k)) for k in clauses])
    A = np.zeros((nP + 1, nP + len(clauses)))
    b = np.zeros(nP + 1)
    for i, r in enumerate(P):
        A[i, i] = -1
        for k, cl in enumerate(clauses):
            if covers(r, cl):
                A[i, nP + k] = -1
        b[i] = -1
    A[nP, nP:] = [len(cl) + 1 for cl in clauses]
    b[nP] = C
    r = solve_lp(c, A_ub=A, b_ub=b)
    assert r.status == 0, r
    return float(r.fun)


def rule_cost(rows, y, rule, p):
    ms = [cmask(c) for c in rule]
    cost = 0.0
    for r, t in zip(rows, y):
        hits = sum(1 for m in ms if (r & m) == m)
        if t == 1:
            cost += 0 if hits else p
        else:
            cost += hits
    return cost


def complexity(rule):
    return sum(len(c) + 1 for c in rule)


def best_rule(rows, y, pool, C, p):
    """Minimum cost over all sub-pools within the budget (branching)."""
    P = [r for r, t in zip(rows, y) if t == 1]
    info = []
    for cl in pool:
        m = cmask(cl)
        cov = 0
        for i, r in enumerate(P):
            if (r & m) == m:
                cov |= 1 << i
        info.append((len(cl) + 1, neg_cost(rows, y, cl), cov))
    nP = len(P)
    best = [p * nP]

    def rec(i, budget, neg, cov):
        cost = neg + p * (nP - bin(cov).count('1'))
        if cost < best[0]:
            best[0] = cost
        for j in range(i, len(info)):
            c, g, v = info[j]
            if c <= budget and neg + g < best[0]:
                rec(j + 1, budget - c, neg + g, cov | v)
    rec(0, C, 0, 0)
    return best[0]


def all_reduced_costs(rows, y, n, lam, mu):
    """Array over all clauses (bit masks) of their reduced cost."""
    v = np.zeros(1 << n)
    k = 0
    for r, t in zip(rows, y):
        v[r] += -mu[k] if t == 1 else 1.0
        k += t == 1
    v = v.reshape([2] * n)
    for ax in range(n):
        # sum over all supersets
        lo = [slice(None)] * n
        hi = [slice(None)] * n
        lo[ax], hi[ax] = 0, 1
        v[tuple(lo)] += v[tuple(hi)]
    return v.reshape(-1) + lam * (popcounts(n) + 1)


_POP = {}


def popcounts(n):
    if n not in _POP:
        p = np.zeros(1, dtype=int)
        for _ in range(n):
            p = np.concatenate([p, p + 1])
        _POP[n] = p
    return _POP[n]


def best_rule_milp(rows, y, pool, C, p):
    """As best_rule, for large pools."""
    P = [r for r, t in zip(rows, y) if t == 1]
    nP, nK = len(P), len(pool)
    c = np.array([float(p)] * nP + [float(neg_cost(rows, y, k)) for k in pool])
    A = np.zeros((nP + 1, nP + nK))
    for i, r in enumerate(P):
        A[i, i] = 1
        for k, cl in enumerate(pool):
            A[i, nP + k] = covers(r, cl)
    A[nP, nP:] = [len(cl) + 1 for cl in pool]
    lo = np.append(np.ones(nP), 0)
    hi = np.append(np.full(nP, np.inf), C)
    r = milp(c, constraints=LinearConstraint(A, lo, hi),
             integrality=np.append(np.zeros(nP), np.ones(nK)), bounds=Bounds(0, 1))
    assert r.status == 0, r
    return float(r.fun)


# ---------------------------------------------------------------- trees ----
def leaf_path(depth, leaf):
    """[(node, goes_left)] from the root to the leaf."""
    node, out = 0, []
    for b in range(depth - 1, -1, -1):
        bit = (leaf >> b) & 1
        out.append((node, bit == 0))
        node = 2 * node + 1 + bit
    return out


def left_of(x, split):
    return x[split[0]] <= split[1]


def walk(x, depth, assign, splits):
    """Leaf reached with the splits assign[node]."""
    node = 0
    for _ in range(depth):
        node = 2 * node + (1 if left_of(x, splits[assign[node]]) else 2)
    return node - (2 ** depth - 1)


def follows(x, depth, leaf, assign, splits):
    return all(left_of(x, splits[assign[n]]) == gl
               for n, gl in leaf_path(depth, leaf))


class TreeData:
    """Rows, splits and candidates with precomputed left/right row sets."""

    def __init__(self, depth, X, y, splits, cands):
        self.depth, self.X, self.y = depth, X, y
        self.splits, self.cands = splits, cands
        self.n = len(X)
        self.full = (1 << self.n) - 1
        self.left = []
        for s in splits:
            m = 0
            for r in range(self.n):
                if left_of(X[r], s):
                    m |= 1 << r
            self.left.append(m)
        self.classes = sorted(set(y))
        self.cls = {}
        for c in self.classes:
            m = 0
            for r in range(self.n):
                if y[r] == c:
                    m |= 1 << r
            self.cls[c] = m

    def rows(self, leaf, assign):
        """Bit mask of the rows following the path."""
        m = self.full
        for n, gl in leaf_path(self.depth, leaf):
            l = self.left[assign[n]]
            m &= l if gl else ~l
        return m & self.full

    def count(self, mask, target):
        return bin(mask & self.cls.get(target, 0)).count('1')

    def majority(self, mask):
        return max((self.count(mask, c) for c in self.classes), default=0)

    def paths(self, leaf):
        """All assignments of candidate splits to the nodes of the leaf."""
        nodes = [n for n, _ in leaf_path(self.depth, leaf)]
        for comb in itertools.product(*[self.cands[n] for n in nodes]):
            yield dict(zip(nodes, comb))

    def n_paths(self):
        t = 0
        for leaf in range(2 ** self.depth):
            k = 1
            for n, _ in leaf_path(self.depth, leaf):
                k *= len(self.cands[n])
            t += k
        return t

    def best_tree(self):
        """Most rows any complete tree over the candidates classifies correctly."""
        first_leaf = 2 ** self.depth - 1

        def rec(node, mask):
            if node >= first_leaf:
                return self.majority(mask)
            best = 0
            for s in set(self.cands[node]):
                v = rec(2 * node + 1, mask & self.left[s]) + rec(
                    2 * node + 2, mask & ~self.left[s])
                if v > best:
                    best = v
            return best
        return rec(0, self.full)


def bits(mask):
    out, i = [], 0
    while mask:
        if mask & 1:
            out.append(i)
        mask >>= 1
        i += 1
    return out


def path_lp(td, paths, rows=True, cuts=(), skip_rows=()):
    """Optimum of the path LP. paths: [(leaf, assign, cost)]. cuts: bool per split.
    Returns None when infeasible."""
    L = 2 ** td.depth
    rho = {}
    for n, cs in enumerate(td.cands):
        for s in cs:
            rho.setdefault((n, s), len(rho))
    nP = len(paths)
    nv = nP + len(rho)
    ub, bub = [], []
    index = {}
    for leaf in range(L):
        index[leaf] = len(index)
        for n, _ in leaf_path(td.depth, leaf):
            for s in sorted(set(td.cands[n])):
                index[leaf, n, s] = len(index)
    E = np.zeros((len(index), nv))
    for key, k in index.items():
        if isinstance(key, tuple):
            E[k, nP + rho[key[1], key[2]]] = -1
    for i, p in enumerate(paths):
        E[index[p[0]], i] = 1
        for n, s in p[1].items():
            E[index[p[0], n, s], i] = 1
    eq = [E]
    beq = [0.0] * len(index)
    for leaf in range(L):
        beq[index[leaf]] = 1.0
    if rows:
        masks = [td.rows(p[0], p[1]) for p in paths]
        seen = set()
        for r in range(td.n):
            if r in skip_rows:
                continue
            pat = tuple((m >> r) & 1 for m in masks)
            if pat in seen:
                continue
            seen.add(pat)
            e = np.zeros(nv)
            e[:nP] = pat
            ub.append(e)
            bub.append(1)
    for cut in cuts:
        e = np.zeros(nv)
        for i, p in enumerate(paths):
            if agrees(td.depth, p[0], p[1], cut):
                e[i] = 1
        eq.append(e[None, :])
        beq.append(1)
    c = np.zeros(nv)
    c[:nP] = [-p[2] for p in paths]
    r = solve_lp(c, A_ub=np.array(ub) if ub else None, b_ub=bub if ub else None,
                 A_eq=np.vstack(eq), b_eq=beq)
    if r.status == 2:
        return None
    assert r.status == 0, r
    return -float(r.fun)


def agrees(depth, leaf, assign, cut):
    """Does the path turn at every node as the cut says for its split?"""
    return all(bool(cut[assign[n]]) == gl for n, gl in leaf_path(depth, leaf))


def best_selection(td, paths):
    """Best total cost over selections of one path per leaf that agree at shared
    nodes. paths: [(leaf, assign, cost)]. None when there is none."""
    top = {}
    offer = {}
    for leaf, assign, cost in paths:
        pre = []
        for n, _ in leaf_path(td.depth, leaf):
            offer.setdefault((n, tuple(pre)), set()).add(assign[n])
            pre.append(assign[n])
        key = leaf, tuple(pre)
        if key not in top or cost > top[key]:
            top[key] = cost
    first = 2 ** td.depth - 1

    def best(node, pre):
        if node >= first:
            return top.get((node - first, pre))
        out = None
        for s in offer.get((node, pre), ()):
            a = best(2 * node + 1, pre + (s,))
            b = None if a is None else best(2 * node + 2, pre + (s,))
            if b is not None and (out is None or a + b > out):
                out = a + b
        return out
    return best(0, ())
