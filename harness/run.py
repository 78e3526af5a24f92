"""Driver: check <ID> [--replay FILE]; worker mode: --worker."""
import argparse
import glob
import importlib
import json
import os
import shutil
import signal
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
CASE_HANG = 150.0      # seconds one case may take before it is looked at


def load(prop):
    import boot  # noqa: F401
    return importlib.import_module('props.' + prop.lower())


def find(mod, name):
    for c in mod.CAMPAIGNS:
        if c.name == name:
            return c
    raise SystemExit('no campaign %s' % name)


def worker(a):
    mod = load(a.prop)
    from core import run_shard
    only = os.environ.get('VERIF_CAMPAIGN')
    camps = [c for c in mod.CAMPAIGNS if not only or c.name == only]
    run_shard(a.prop, camps, a.seed, a.tier, a.shard, a.nshards, a.out, a.deadline)


def replay_one(a):
    """Runs one recorded case in this process. Prints a verdict line."""
    mod = load(a.prop)
    from core import Skip, Violation, norm, run_case
    with open(a.replay) as f:
        d = json.load(f)
    n = d.get('repeat', 1)
    for _ in range(n):
        try:
            rec = run_case(find(mod, d['campaign']), norm(d['case']))
        except Violation as e:
            print('VERDICT violation %s' % str(e).replace('\n', ' ')[:600])
            return
        except Skip as e:
            print('VERDICT skip %s' % e)
            return
    print('VERDICT ok %s' % ' '.join(sorted(rec.labels)))


def py(*args):
    return [sys.executable, '-B', os.path.join(HERE, 'run.py')] + list(args)


def isolated_replay(prop, path, timeout=CASE_HANG):
    """('violation'|'ok'|'skip'|'error', text)"""
    try:
        p = subprocess.run(py(prop, '--replay-inner', '--replay', path),
                           stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           timeout=timeout)
    except subprocess.TimeoutExpired:
        return 'violation', 'the case does not end (%.0f s)' % timeout
    out = p.stdout.decode(errors='replace')
    for line in out.splitlines():
        if line.startswith('VERDICT '):
            w = line.split(' ', 2)
            return w[1], w[2] if len(w) > 2 else ''
    if p.returncode < 0:
        return 'violation', 'killed by signal %d' % -p.returncode
    return 'error', (out + p.stderr.decode(errors='replace'))[-3000:]


def save_replay(prop, viol):
    d = os.path.join(ROOT, 'replays')
    os.makedirs(d, exist_ok=True)
    import hashlib
    text = json.dumps({'property': prop, 'campaign': viol['campaign'],
                       'case': viol['case'], 'message': viol['message']},
                      indent=1, sort_keys=True)
    path = os.path.join(d, '%s-%s.json' % (
        prop, hashlib.blake2b(text.encode(), digest_size=5).hexdigest()))
    with open(path, 'w') as f:
        f.write(text)
    return path


def evidence(prop, tier, seed, mod_rule, agg, wall, violations, extra):
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    cov = {
        'evaluations': agg['evaluations'],
        'distinct_nontrivial': len(agg['hashes']),
        'rule': mod_rule['rule'],
        'samples': agg['samples'][:6],
        'labels': dict(sorted(agg['labels'].items())),
        'campaigns': agg['per_campaign'],
        'skipped': agg['skipped'],
        'regression_cases': agg['regress'],
        'stopped_by_time_budget': agg['truncated'],
    }
    cov.update(extra)
    d = {'property': prop, 'tier': tier, 'seed': seed, 'level': 'exploration',
         'coverage': cov, 'assumptions': mod_rule['assumptions'],
         'wall_s': round(wall, 2), 'violations': violations}
    path = os.path.join(ROOT, 'evidence', prop + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(d, f, indent=1)
    os.rename(path + '.tmp', path)


def meta(prop):
    """RULE and ASSUMPTIONS of a property, read in a child (no solver import here)."""
    code = ("import sys,json;sys.path.insert(0,%r);import boot,importlib;"
            "m=importlib.import_module('props.%s');"
            "print('META '+json.dumps({'rule':m.RULE,'assumptions':m.ASSUMPTIONS}))"
            % (HERE, prop.lower()))
    p = subprocess.run([sys.executable, '-B', '-c', code],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    for line in p.stdout.decode().splitlines():
        if line.startswith('META '):
            return json.loads(line[5:]), None
    return None, p.stderr.decode()[-3000:]


def kill(p):
    try:
        os.killpg(p.pid, signal.SIGKILL)
    except OSError:
        pass


def drive(a):
    t0 = time.monotonic()
    prop, tier, seed = a.prop, a.tier, a.seed
    rule, err = meta(prop)
    if rule is None:
        print(err)
        if is_sut_import_error(err):
            v = {'campaign': 'import', 'case': None,
                 'message': 'the package cannot be imported'}
            print('VIOLATION property=%s replay=%s' % (prop, save_replay(prop, v)))
            return 1
        print('HARNESS-ERROR property=%s' % prop)
        return 2
    agg = {'evaluations': 0, 'hashes': set(), 'labels': {}, 'samples': [],
           'per_campaign': {}, 'skipped': 0, 'truncated': False, 'regress': 0}
    for path in known_findings(prop):
        print(path)

    # Replay tier: recorded inputs of repaired defects and of planted bugs.
    regress = sorted(glob.glob(os.path.join(ROOT, 'regress', prop, '*.json')))
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % prop)
    procs = []
    try:
        running = []
        todo = list(regress)
        found = None
        while todo or running:
            while todo and len(running) < 8:
                path = todo.pop(0)
                p = subprocess.Popen(
                    py(prop, '--replay-inner', '--replay', path),
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    start_new_session=True)
                running.append((p, path))
            p, path = running.pop(0)
            try:
                out = p.communicate(timeout=CASE_HANG)[0].decode(errors='replace')
            except subprocess.TimeoutExpired:
                kill(p)
                found = found or (path, 'the case does not end')
                continue
            agg['regress'] += 1
            verdict = [l for l in out.splitlines() if l.startswith('VERDICT ')]
            if verdict and verdict[-1].startswith('VERDICT violation'):
                found = found or (path, verdict[-1][18:])
            elif not verdict and p.returncode < 0:
                found = found or (path, 'killed by signal %d' % -p.returncode)
            elif not verdict:
                print(out[-3000:])
                print('HARNESS-ERROR property=%s regression case %s' % (prop, path))
                return 2
        if found:
            with open(found[0]) as f:
                d = json.load(f)
            d['message'] = found[1]
            rp = save_replay(prop, d)
            print('%s: %s' % (prop, found[1]))
            evidence(prop, tier, seed, rule, agg, time.monotonic() - t0, 1, {})
            print('VIOLATION property=%s replay=%s' % (prop, rp))
            return 1

        n = a.shards
        start = {}
        for s in range(n):
            lg = open(os.path.join(tmp, 'log-%d' % s), 'wb')
            p = subprocess.Popen(
                py(prop, '--worker', '--shard', str(s), '--nshards', str(n),
                   '--out', tmp, '--tier', tier, '--seed', str(seed),
                   '--deadline', str(a.deadline)),
                stdout=lg, stderr=lg, start_new_session=True,
                cwd=tmp)
            procs.append(p)
            lg.close()
        violation = None
        viol_seen = None
        hard_end = time.monotonic() + a.deadline + 220
        alive = set(range(n))
        errors = []
        cur_seen = {}
        while alive:
            time.sleep(0.05)
            now = time.monotonic()
            for s in sorted(alive):
                if procs[s].poll() is not None:
                    alive.discard(s)
                    rc = procs[s].returncode
                    out = os.path.join(tmp, 'shard-%d.json' % s)
                    if not os.path.exists(out):
                        v = crashed(prop, tmp, s, rc)
                        if v and not violation:
                            violation = v
                        elif not v:
                            errors.append('shard %d ended with %s: %s' % (
                                s, rc, tail(os.path.join(tmp, 'log-%d' % s))))
                    continue
                cur = os.path.join(tmp, 'shard-%d.cur' % s)
                try:
                    m = os.stat(cur).st_mtime_ns
                except OSError:
                    continue
                if cur_seen.get(s, (None,))[0] != m:
                    cur_seen[s] = (m, now)
                elif now - cur_seen[s][1] > CASE_HANG:
                    kill(procs[s])
                    procs[s].wait()
                    alive.discard(s)
                    v = crashed(prop, tmp, s, None)
                    if v and not violation:
                        violation = v
                    elif not v:
                        agg['truncated'] = True
            seen = [s for s in range(n)
                    if os.path.exists(os.path.join(tmp, 'shard-%d.viol' % s))]
            if seen and viol_seen is None:
                viol_seen = now
            if violation is not None:
                break
            if viol_seen is not None:
                # Let one shard shrink, stop the others.
                keep = seen[0]
                for s in list(alive):
                    if s != keep and s not in seen:
                        kill(procs[s])
                        procs[s].wait()
                        alive.discard(s)
                if now - viol_seen > 75:
                    break
            elif now > hard_end:
                agg['truncated'] = True
                break
        for p in procs:
            kill(p)
            p.wait()

        for s in range(n):
            try:
                with open(os.path.join(tmp, 'shard-%d.json' % s)) as f:
                    r = json.load(f)
            except OSError:
                r = None
            if r:
                agg['evaluations'] += r['evaluations']
                agg['skipped'] += r['skipped']
                agg['hashes'].update(r['hashes'])
                agg['truncated'] |= r['truncated']
                agg['samples'] += r['samples'][:2]
                for k, v in r['labels'].items():
                    agg['labels'][k] = agg['labels'].get(k, 0) + v
                for k, v in r['per_campaign'].items():
                    e = agg['per_campaign'].setdefault(k, dict.fromkeys(v, 0))
                    for kk in v:
                        e[kk] += v[kk]
                if r['error']:
                    errors.append(r['error'])
            try:
                with open(os.path.join(tmp, 'shard-%d.viol' % s)) as f:
                    v = json.load(f)
                if violation is None or len(json.dumps(v['case'])) < len(
                        json.dumps(violation['case'])):
                    violation = v
            except OSError:
                pass
    finally:
        for p in procs:
            if p.poll() is None:
                kill(p)
        shutil.rmtree(tmp, ignore_errors=True)

    wall = time.monotonic() - t0
    evidence(prop, tier, seed, rule, agg, wall, 1 if violation else 0, {})
    print('%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs%s' % (
        prop, tier, seed, agg['evaluations'], len(agg['hashes']), wall,
        ' (stopped by time budget)' if agg['truncated'] else ''))
    for k in sorted(agg['per_campaign']):
        print('  %-28s %s' % (k, agg['per_campaign'][k]))
    if a.verbose:
        for k in sorted(agg['labels']):
            print('    %-40s %d' % (k, agg['labels'][k]))
    if violation:
        print('%s [%s]: %s' % (prop, violation['campaign'], violation['message']))
        print('VIOLATION property=%s replay=%s' % (prop, save_replay(prop, violation)))
        return 1
    if errors:
        print('\n'.join(errors)[-6000:])
        print('HARNESS-ERROR property=%s' % prop)
        return 2
    if agg['evaluations'] == 0:
        print('HARNESS-ERROR property=%s nothing was evaluated' % prop)
        return 2
    return 0


def is_sut_import_error(err):
    """Only an import failure inside the package itself is its fault."""
    lines = [l for l in (err or '').splitlines() if l.strip().startswith('File "')]
    return bool(lines) and ('/col_gen_estimator/' in lines[-1]
                            or '/examples/' in lines[-1])


def tail(path):
    try:
        with open(path, errors='replace') as f:
            return f.read()[-2000:]
    except OSError:
        return ''


def crashed(prop, tmp, s, rc):
    """A worker died or hung: is it the case it was running?"""
    cur = os.path.join(tmp, 'shard-%d.cur' % s)
    try:
        with open(cur) as f:
            d = json.load(f)
    except (OSError, ValueError):
        return None
    path = cur + '.replay'
    with open(path, 'w') as f:
        json.dump(d, f)
    verdict, text = isolated_replay(prop, path)
    if verdict == 'violation':
        return {'campaign': d['campaign'], 'case': d['case'],
                'message': 'worker ended with %s; alone: %s' % (rc, text)}
    return None


def known_findings(prop):
    path = os.path.join(ROOT, 'KNOWN_FINDINGS.txt')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line.startswith('finding: property=%s ' % prop):
                    out.append('KNOWN-FINDING: ' + line[len('finding: '):])
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--replay')
    ap.add_argument('--replay-inner', action='store_true')
    ap.add_argument('--worker', action='store_true')
    ap.add_argument('--shard', type=int, default=0)
    ap.add_argument('--nshards', type=int, default=1)
    ap.add_argument('--out')
    ap.add_argument('--shards', type=int, default=int(os.environ.get('VERIF_SHARDS') or '8'))
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED', '1') or 1))
    ap.add_argument('--deadline', type=float, default=None)
    ap.add_argument('-v', '--verbose', action='store_true')
    a = ap.parse_args()
    a.prop = a.prop.upper()
    if a.deadline is None:
        a.deadline = 400.0 if a.tier == 'quick' else 3000.0
    if a.worker:
        worker(a)
        return 0
    if a.replay_inner:
        replay_one(a)
        sys.stdout.flush()
        return 0
    if a.replay:
        verdict, text = isolated_replay(a.prop, a.replay)
        print('%s: %s' % (verdict, text))
        if verdict == 'violation':
            print('VIOLATION property=%s replay=%s' % (a.prop, a.replay))
            return 1
        return 0 if verdict in ('ok', 'skip') else 2
    return drive(a)


if __name__ == '__main__':
    code = main()
    sys.stdout.flush()
    os._exit(code)
