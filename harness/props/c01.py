import numpy as np

from core import Campaign, need
from props import loop

RULE = ('Scripted user-supplied master and subproblems: 1-4 levels with 0-3 '
        'subproblems, per iteration and subproblem a list of columns with the '
        'answer of the master, iteration limit, integer flag, one or two fits of '
        'the same estimator. Non-trivial: at least two iterations, at least two '
        'levels, some accepted and some rejected column.')
ASSUMPTIONS = ['Within a level the loop may stop pricing after an accepted column '
               '(documented as unspecified) or price the rest of the level.']


def judge(case, r, rec):
    ev = r.ev
    need(r.ret is r.clf, 'fit did not return the estimator')
    need(ev and ev[0]['kind'] == 'gen', 'fit does not start by building the master')
    need(sum(e['kind'] == 'gen' for e in ev) == 1, 'master built more than once')
    for e in ev:
        if 'y' in e:
            need(e['y'] == r.enc, '%s got labels %s instead of %s', e['kind'], e['y'], r.enc)
            need(np.array_equal(e['X'], r.X), '%s got other data', e['kind'])
        if 'params' in e:
            want = {'solve': 'rmp', 'ip': 'ip'}.get(e['kind']) if case['params'] else ''
            if e['kind'] == 'price':
                want = loop.params_of(case, *e['sp'])
            need(e['params'] == want, '%s %s got the parameters %r instead of %r', e['kind'],
                 e.get('sp', ''), e['params'], want)
    pre = []
    for e in ev[1:]:
        if e['kind'] == 'solve':
            break
        pre.append(e['kind'])
    need(not [k for k in pre if k != 'ip'], 'events %s before the first master solve', pre)
    rs = loop.rounds(ev)
    allsp = loop.order(case['levels'])
    accepted_any = []
    for i, evs in enumerate(rs):
        duals = evs[0]['duals']
        ups = [e['sp'] for e in evs if e['kind'] == 'update']
        prices = [e for e in evs if e['kind'] == 'price']
        first_price = min((k for k, e in enumerate(evs) if e['kind'] == 'price'),
                          default=len(evs))
        need(sorted(ups) == sorted(allsp), 'iteration %d updates %s, subproblems are %s',
             i + 1, ups, allsp)
        need(all(e['kind'] != 'update' for e in evs[first_price:]),
             'iteration %d: update after pricing started', i + 1)
        for e in evs:
            if e['kind'] in ('update', 'price'):
                need(e['duals'] is duals or e['duals'] == duals,
                     'iteration %d: %s with duals %s instead of %s', i + 1, e['kind'],
                     e['duals'], duals)
        seq = [e['sp'] for e in prices]
        need(seq == sorted(set(seq)), 'iteration %d prices in order %s', i + 1, seq)
        acc = {}
        for e in evs:
            if e['kind'] == 'add' and e['ok']:
                acc[e['key'][1]] = acc.get(e['key'][1], 0) + 1
        priced = {}
        for l, p in seq:
            priced.setdefault(l, set()).add(p)
        for l in priced:
            for lower in range(l):
                need(len(priced.get(lower, ())) == case['levels'][lower],
                     'iteration %d: level %d priced before level %d was complete',
                     i + 1, l, lower)
                need(not acc.get(lower), 'iteration %d: level %d priced although level %d '
                     'had accepted columns', i + 1, l, lower)
        # in-level order: nothing is skipped without a reason
        for l, ps in priced.items():
            need(ps == set(range(len(ps))), 'iteration %d: level %d priced %s', i + 1, l,
                 sorted(ps))
        offered = [e['key'] for e in evs if e['kind'] == 'add']
        made = [k for e in prices for k in e['keys']]
        need(offered == made, 'iteration %d: columns offered %s, generated %s', i + 1,
             offered, made)
        accepted_any.append(bool(acc))
    for i in range(len(rs) - 1):
        need(accepted_any[i], 'iteration %d follows one without an accepted column', i + 2)
    oks = [e['ok'] for e in ev if e['kind'] == 'add']
    rec.nt(len(rs) > 1 and len(case['levels']) > 1 and True in oks and False in oks)
    rec.lab(not allsp, 'no subproblem')
    rec.label('duals ' + case['duals'])
    rec.lab(len(rs) > 2, 'more than 2 iterations')
    rec.lab(False in oks, 'rejected columns')
    rec.lab(any(len(set(e['keys'])) < len(e['keys']) for e in ev if e['kind'] == 'price'),
            'the same column twice in a list')
    rec.lab(any(n > 1 for n in case['levels']), 'several subproblems per level')


def check(c, rec):
    c = dict(loop.DEFAULTS, **c)
    rs = loop.run(c)
    for r in rs:
        judge(c, r, rec)
    rec.lab(len(rs) > 1, 'two fits')


CAMPAIGNS = [Campaign('trace', loop.cases(), check, quick=8000),
             Campaign('trace-timed', loop.cases(timed=True), check, quick=4800),
             Campaign('long', loop.cases(timed=True, long=True), check, quick=600)]
