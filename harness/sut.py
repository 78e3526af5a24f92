"""Builds objects of the package under test from plain cases."""
import boot  # noqa: F401
import numpy as np
from ortools.linear_solver import pywraplp
from ortools.sat.python import cp_model

import col_gen_estimator as cge
from col_gen_estimator import (  # noqa: F401
    BDRHeuristic, BDRMasterProblem, BDRSubProblem, BaseMasterProblem,
    BaseSubproblem, BooleanDecisionRuleClassifier,
    BooleanDecisionRuleClassifierWithHeuristic, ColGenClassifier,
    DTreeClassifier, DTreeMasterProblem, DTreeSubProblem,
    DTreeSubProblemHeuristic, Leaf, Node, Parameter, Path, Row, RunningStat,
    Split)
import col_gen_estimator._dtree_classifier as dtmod

import ref

assert cge.__file__.startswith(boot.REPO), cge.__file__


def binary_X(rows, n, dtype=int):
    return np.array(ref.matrix(rows, n), dtype=dtype).reshape(len(rows), n)


def make_splits(splits, X):
    out = []
    for i, (f, t) in enumerate(splits):
        s = Split()
        s.id, s.feature, s.threshold = i, f, t
        for r, x in enumerate(X):
            (s.left_rows if x[f] <= t else s.right_rows).add(r)
        out.append(s)
    return out


def make_nodes(cands):
    out = []
    for i, c in enumerate(cands):
        n = Node()
        n.id = i
        n.candidate_splits = list(c)
        out.append(n)
    return out


def make_leaves(depth):
    out = []
    for i in range(2 ** depth):
        leaf = Leaf()
        leaf.create_leaf(i, depth)
        out.append(leaf)
    return out


def make_path(depth, leaf, assign, target, cost, order=None):
    p = Path()
    p.leaf_id = leaf
    nodes = [n for n, _ in ref.leaf_path(depth, leaf)][::-1]
    if order:
        nodes = [nodes[i] for i in order]
    p.node_ids = nodes
    p.splits = [assign[n] for n in nodes]
    p.target = target
    p.cost = cost
    return p


def assign_of(path):
    return dict(zip(path.node_ids, path.splits))


class TreeSUT:
    """Fresh package objects for one tree instance (case keys: d, X, y, splits,
    cands)."""

    def __init__(self, case):
        self.depth = case['d']
        self.X = np.array(case['X'], dtype=float)
        self.y = np.array(case['y'])
        self.td = ref.TreeData(case['d'], case['X'], case['y'], case['splits'],
                               case['cands'])
        self.splits = make_splits(case['splits'], case['X'])
        self.nodes = make_nodes(case['cands'])
        if (len(case['X']) + len(case['splits'])) % 2:
            # as the experiment marks the splits that no node has as a candidate
            for s in self.splits:
                s.removed = not any(s.id in c for c in case['cands'])
        self.leaves = make_leaves(case['d'])

    def path(self, leaf, assign, target=None, cost=None, order=None):
        m = self.td.rows(leaf, assign)
        if target is None:
            best = self.td.majority(m)
            target = [c for c in self.td.classes if self.td.count(m, c) == best][0]
        if cost is None:
            cost = self.td.count(m, target)
        return make_path(self.depth, leaf, assign, target, cost, order)

    def tree_paths(self, assign):
        """The paths of the complete tree assign[node]."""
        out = []
        for leaf in range(2 ** self.depth):
            out.append(self.path(leaf, {n: assign[n] for n, _ in
                                        ref.leaf_path(self.depth, leaf)}))
        return out


def listed(classes, k):
    """The classes in increasing order, decreasing order or begun in the middle."""
    out = list(classes)
    if k % 4 == 1:
        out.reverse()
    elif k % 4 == 3:
        out = out[1:] + out[:1]
    return out


def use_before(t, depth):
    """The nodes and splits of t first serve a master of smaller depth."""
    leaves = make_leaves(depth)
    tree = [c[0] for c in t.td.cands]
    paths = [make_path(depth, leaf, {n: tree[n] for n, _ in ref.leaf_path(depth, leaf)},
                       t.td.classes[0], 0) for leaf in range(2 ** depth)]
    mp = DTreeMasterProblem(paths, leaves, t.nodes[:2 ** depth - 1], t.splits)
    mp.generate_mp(t.X, t.y)


class one_thread:
    """Solvers run with one thread and CP-SAT reports no wall time."""

    def __enter__(self):
        self.old = (pywraplp.Solver.CreateSolver, cp_model.CpSolver.Solve,
                    cp_model.CpSolver.WallTime)
        create_, solve_, _ = self.old

        def create(*a, **k):
            s = create_(*a, **k)
            if s is not None:
                s.SetNumThreads(1)
            return s

        def solve(obj, *a, **k):
            obj.parameters.num_search_workers = 1
            return solve_(obj, *a, **k)
        pywraplp.Solver.CreateSolver = staticmethod(create)
        cp_model.CpSolver.Solve = solve
        cp_model.CpSolver.WallTime = lambda obj: 0.0

    def __exit__(self, *a):
        (pywraplp.Solver.CreateSolver, cp_model.CpSolver.Solve,
         cp_model.CpSolver.WallTime) = self.old


class solver_style:
    """CP-SAT runs with generated search parameters on top of the package's own:
    they must not change any guaranteed answer, only the solutions seen on the way."""

    def __init__(self, style):
        self.style = style or {}

    def __enter__(self):
        self.old = solve_ = cp_model.CpSolver.Solve
        style = self.style

        def solve(obj, *a, **k):
            keep = {n: getattr(obj.parameters, n) for n in style}
            for n, v in style.items():
                setattr(obj.parameters, n, v)
            try:
                return solve_(obj, *a, **k)
            finally:
                for n, v in keep.items():
                    setattr(obj.parameters, n, v)
        if style:
            cp_model.CpSolver.Solve = solve

    def __exit__(self, *a):
        cp_model.CpSolver.Solve = self.old
