"""Writes MANIFEST.json (run by hand after editing the tables)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HYP = 'Hypothesis-generated '
T = {
 'C01': ('scripted stub masters and subproblems; trace automaton oracle', 'Stub families stand for every master/subproblem; scripts of up to 4 levels x 3 subproblems, long runs of dozens of rounds.'),
 'C02': ('scripted stubs on a virtual clock with generated durations and limits; recomputed statistics as oracle', 'time.time is virtual; durations are generated multiples of 1/8 s.'),
 'C03': ('label alphabets; recording stubs and real classifiers; metamorphic renaming', 'Renaming runs are compared single-threaded; up to 420 classes.'),
 'C04': ('histories of add/generate/solve on the rule master; reference LP by HiGHS', 'Trusts scipy HiGHS; tolerance 1e-4.'),
 'C05': ('histories of dual vectors; brute force over all short clauses', 'Clauses by enumeration (bitmask DP on large data); cbc, scip, sat back ends; up to 80 calls on one model.'),
 'C06': ('duals and K; exact set comparison with enumeration', 'Enumeration of all clauses; large data up to hundreds of rows.'),
 'C07': ('clause pools; brute force over all selections', 'Pools of up to about 10 clauses by enumeration, up to dozens by a reference integer program.'),
 'C08': ('full fits; reference LP over all clauses, dual feasibility for every clause', 'All clauses enumerated; up to 6 features, some large data sets.'),
 'C09': ('learned and injected rules, rows, containers; direct DNF evaluation', 'Containers: list, numpy types, DataFrame, scipy sparse; clauses of up to hundreds of features.'),
 'C10': ('depths, split tables and rows; five-line tree walk as oracle', 'Depth up to 12.'),
 'C11': ('histories of add path/solve on the tree master; reference path LP by HiGHS', 'Depth 1..4, up to some hundred paths; tolerance 1e-4.'),
 'C12': ('histories of add path/solve in all cut modes; reference LP with the reported cuts, brute-force best tree', 'Depth 2..3, up to about 250 paths and a dozen cuts; tolerance 1e-4.'),
 'C13': ('histories of duals and cuts on each exact path subproblem; brute force over splits x classes', 'Depth 1..3, enumeration of splits x classes; solver styles vary; SCIP not used (its incremental mode is wrong in this OR-tools build).'),
 'C14': ('duals, cuts, weights and random states; validity predicate per returned path', 'Depth 1..4, up to 40 rounds on one heuristic.'),
 'C15': ('path pools with a hidden complete tree; brute-force best selection', 'Depth 1..4, best selection by dynamic programming over the given paths.'),
 'C16': ('full fits; enumerated path LP and best tree by dynamic programming', 'Depth 1..3; best tree by dynamic programming; time limits on a virtual clock.'),
 'C17': ('fitted and injected trees, unseen rows, containers; direct walk', 'Rows at, between and beyond thresholds, inf excluded where scikit-learn refuses it; up to 140 classes.'),
 'C18': ('push/clear histories; exact rational statistics', 'Values up to 1e15, long histories; rounding bound scaled by magnitude.'),
 'C19': ('stateful histories of choices and scores; reference model of the tuner', 'Scores are multiples of 1/16; up to 900 operations.'),
 'C20': ('sequences of CP models with known optima; recorded tuners and callbacks', 'CP-SAT statuses forced by limits and stop-after-first-solution, or scripted; up to 200 solves.'),
 'C21': ('estimator protocol operations on three classifiers; equality with freshly constructed ones', 'Comparisons run single-threaded; three concrete classifiers.'),
 'C22': ('nodes, splits, rows; direct walks and LP with and without removed rows', 'Depth 1..3, large data up to hundreds of rows.'),
 'C23': ('sequences of scikit-learn trees; independent reading of tree_', 'Trees fitted by scikit-learn on generated data, depth up to 8, up to 25 trees.'),
 'C24': ('split count tables; direct specification of the q most frequent', 'Ties may be resolved either way; up to 420 splits.'),
 'C26': ('histories of valid and malformed fit / predict calls on stub, rule and tree classifiers; predictions, model and parameters before and after', 'Refusal means ValueError or TypeError; rows of another width are outside the domain.'),
 'C25': ('CSV files and command lines run through main(); recomputed accuracies, recorded fit', 'Runs in a scratch directory; CSVs where CART makes a split; three recorded findings (KNOWN_FINDINGS.txt).'),
}
checks = []
for k in sorted(T):
    tech, note = T[k]
    checks.append({
        'property': k,
        'quick_cmd': 'bin/check ' + k,
        'thorough_cmd': 'VERIF_TIER=thorough bin/check ' + k,
        'technique': 'property-based testing: ' + HYP + tech,
        'level': 'exploration',
        'level_note': 'Generated-input search with an explicit oracle; nothing is proved. ' + note,
    })
m = {'version': 1, 'setup_cmd': 'true', 'checks': checks, 'not_applicable': [],
     'notes': 'The package is imported from /repo on every run (byte code caching off); there is nothing to build and no hook in /repo.'}
with open(os.path.join(ROOT, 'MANIFEST.json'), 'w') as f:
    json.dump(m, f, indent=1)
    f.write('\n')
