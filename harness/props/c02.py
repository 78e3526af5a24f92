from core import Campaign, need
from props import loop

RULE = ('As C01, with durations of every call on a virtual clock, time and iteration '
        'limits. Non-trivial: two iterations, or the end was caused by the time limit.')
ASSUMPTIONS = ['Limits are never exactly equal to an elapsed time.',
               'The time of a subproblem includes its update (as documented: total time '
               'spent by the subproblem).']


def eq(a, b):
    return a is not None and abs(a - b) < 1e-6


def judge(case, r, rec, k):
    s, ev, rs = r.stats, r.ev, loop.rounds(r.ev)
    lim = case['limit'] if case['limit'] > 0 else None
    maxit = case['iters'] if case['iters'] > 0 else None
    allsp = loop.order(case['levels'])
    need(rs, 'no iteration was run')
    n = len(rs)
    start = r.start
    solves = 0
    for e in ev:
        if e['kind'] == 'solve':
            solves += 1
            if solves in case['resets']:
                # the master asks for the time to count from here
                start = e['t1']
        if e['kind'] == 'price' and lim is not None:
            need(e['t0'] - start <= lim, 'pricing starts at %g, limit %g',
                 e['t0'] - start, lim)
    last = rs[-1]
    accepted = any(e['kind'] == 'add' and e['ok'] for e in last)
    priced = [e['sp'] for e in last if e['kind'] == 'price']
    complete = len(priced) == len(allsp)
    end_loop = max(e['t1'] for e in last)
    passed = lim is not None and end_loop - start > lim
    case1 = complete and not accepted
    case2 = maxit is not None and n == maxit
    need(maxit is None or n <= maxit, '%d iterations, limit %s', n, maxit)
    need(case1 or case2 or passed,
         'fit ended after iteration %d without a reason: priced %s of %s, accepted '
         'column %s, elapsed %g', n, priced, allsp, accepted, end_loop - start)
    opt, tlr = s['mp_optimal_'], s['time_limit_reached_']
    need(opt in (True, False) and tlr in (True, False), 'flags %r %r', opt, tlr)
    need(not opt or case1, 'mp_optimal_ although the last round priced %s of %s and '
         'accepted=%s', priced, allsp, accepted)
    need(not tlr or passed, 'time_limit_reached_ at %g of %s', end_loop - start, lim)
    if case1:
        need(opt, 'a complete round added nothing but mp_optimal_ is False')
    if passed and not case1 and not case2:
        need(tlr, 'ended by the time limit, time_limit_reached_ is False')
    if passed and not complete and not accepted:
        need(tlr, 'pricing cut short by the time limit, time_limit_reached_ is False')
    # the loop goes on while there is no reason to stop
    ips = [e for e in ev if e['kind'] == 'ip']
    need(len(ips) == (1 if case['ip'] else 0), '%d integer solves, requested: %s',
         len(ips), case['ip'])
    if ips:
        need(ev[-1] is ips[0], 'events after the integer solve')
    # statistics
    for name in ('performed_iter_', 'iter_'):
        need(s[name] is not None and s[name] == n, '%s is %s, iterations run: %d', name, s[name], n)
    imp = sum(1 for i in range(n) if i < len(r.fit['its']) and r.fit['its'][i]['improved'])
    need(s['num_improving_iter_'] == imp, 'num_improving_iter_ is %s, improved %d times',
         s['num_improving_iter_'], imp)
    tsp = {sp: 0.0 for sp in allsp}
    cols = {sp: 0 for sp in allsp}
    tm = ta = tip = 0.0
    for e in ev:
        d = e['t1'] - e['t0']
        if e['kind'] in ('update', 'price'):
            tsp[e['sp']] += d
        elif e['kind'] == 'solve':
            tm += d
        elif e['kind'] == 'add':
            ta += d
            cols[e['key'][1], e['key'][2]] += e['ok']
        elif e['kind'] == 'ip':
            tip += d
    for l, p in allsp:
        got = s['num_col_added_sp_'][l][p]
        need(got == cols[l, p], 'num_col_added_sp_[%d][%d] is %s, accepted %d', l, p, got,
             cols[l, p])
        got = s['time_spent_sp_'][l][p]
        need(eq(got, tsp[l, p]), 'time_spent_sp_[%d][%d] is %s, spent %g', l, p, got,
             tsp[l, p])
    need([len(v) for v in s['num_col_added_sp_']] == case['levels'], 'shape of num_col_added_sp_')
    need(eq(s['time_spent_master_'], tm), 'time_spent_master_ %s, spent %g',
         s['time_spent_master_'], tm)
    need(eq(s['time_add_col_'], ta), 'time_add_col_ %s, spent %g', s['time_add_col_'], ta)
    need(eq(s['time_spent_master_ip_'], tip), 'time_spent_master_ip_ %s, spent %g',
         s['time_spent_master_ip_'], tip)
    need(eq(s['time_elapsed_'], r.end - start), 'time_elapsed_ %s, elapsed %g',
         s['time_elapsed_'], r.end - start)
    rec.lab(case1, 'ended: optimal')
    rec.lab(case2, 'ended: iteration limit')
    rec.lab(tlr, 'ended: time limit')
    rec.lab(tlr and priced, 'time limit inside a round')
    rec.lab(passed and opt, 'limit passed during the last pricing')
    rec.lab(start != r.start, 'timer reset by the master')
    rec.lab(any(20 < k <= n for k in case['resets']), 'reset after many iterations')
    rec.lab(n > 20, 'more than 20 iterations')
    rec.lab(k > 0, 'second fit')
    rec.nt(n > 1 or tlr)


def check(c, rec):
    c = dict(loop.DEFAULTS, **c)
    for k, r in enumerate(loop.run(c)):
        judge(c, r, rec, k)


CAMPAIGNS = [Campaign('timed', loop.cases(timed=True), check, quick=11200),
             Campaign('untimed', loop.cases(), check, quick=2400),
             Campaign('long', loop.cases(timed=True, long=True), check, quick=800)]
