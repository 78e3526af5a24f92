"""Campaigns, oracle verdicts and the worker loop."""
import hashlib
import json
import os
import sys
import traceback
import zlib

from boot import CLOCK, REAL_MONO, REPO, silent
from hypothesis import HealthCheck, Phase, given, seed as hyp_seed, settings
from hypothesis.errors import Flaky, FlakyFailure, UnsatisfiedAssumption
import hypothesis.internal.conjecture.engine as _engine


# Hypothesis spends two thirds of its executions on duplicating parts of earlier
# cases; the strategies here generate repetition on purpose, so use fresh cases.
_engine.ConjectureRunner.generate_mutations_from = lambda self, data: None


class Violation(Exception):
    """Raised by an oracle: the property is broken."""


class Skip(Exception):
    """The case is outside the domain (counted, never silent)."""


class Known(Exception):
    """A recorded finding (KNOWN_FINDINGS.txt): the case fails in exactly the way
    described there. Everything else stays a violation."""

    def __init__(self, key, msg):
        Exception.__init__(self, '[%s] %s' % (key, msg))
        self.key = key


def listed_findings():
    path = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),
                        'KNOWN_FINDINGS.txt')
    out = set()
    with open(path) as f:
        for line in f:
            if line.startswith('finding: property='):
                out.add(line.split('[', 1)[1].split(']', 1)[0])
    return out


LISTED = listed_findings()


class Stop(BaseException):
    """Ends a campaign (time budget used up)."""


def need(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def attr(obj, name, prop_msg='documented attribute missing'):
    try:
        return getattr(obj, name)
    except AttributeError:
        raise Violation('%s: %s.%s' % (prop_msg, type(obj).__name__, name))


class Rec:
    """What a case exercised."""

    def __init__(self):
        self.labels = set()
        self.nontrivial = False

    def label(self, *names):
        for n in names:
            self.labels.add(str(n))

    def lab(self, cond, name):
        if cond:
            self.labels.add(str(name))

    def nt(self, cond=True):
        if cond:
            self.nontrivial = True


class Campaign:
    def __init__(self, name, strategy, check, quick, thorough=None):
        self.name = name
        self.strategy = strategy
        self.check = check
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 15


def norm(case):
    return json.loads(json.dumps(case, default=lambda v: v.item()))


def case_hash(campaign, case):
    s = campaign + json.dumps(case, sort_keys=True)
    return hashlib.blake2b(s.encode(), digest_size=8).hexdigest()


_REPO_DIRS = (os.path.join(REPO, 'col_gen_estimator') + os.sep,
              os.path.join(REPO, 'examples') + os.sep)


def through_sut(exc):
    tb = exc.__traceback__
    while tb is not None:
        f = os.path.abspath(tb.tb_frame.f_code.co_filename)
        if f.startswith(_REPO_DIRS):
            return True
        tb = tb.tb_next
    return False


def run_case(campaign, case):
    """Runs one case. Returns Rec; raises Violation, Skip or a harness error."""
    rec = Rec()
    try:
        with silent():
            try:
                campaign.check(case, rec)
            finally:
                CLOCK.stop()
    except (Violation, Skip, Stop):
        raise
    except Known as e:
        if e.key not in LISTED:
            raise Violation(str(e)) from e
        rec.nontrivial = False
        rec.label('known finding ' + e.key)
    except Exception as e:
        if through_sut(e):
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation('%s: %s (%s:%s)' % (
                type(e).__name__, str(e)[:300], os.path.basename(last.filename),
                last.name)) from e
        raise
    return rec


class ShardResult:
    def __init__(self):
        self.evaluations = 0
        self.skipped = 0
        self.hashes = set()
        self.labels = {}
        self.samples = []
        self.per_campaign = {}
        self.truncated = False
        self.violation = None
        self.error = None

    def dump(self, path):
        d = dict(self.__dict__)
        d['hashes'] = sorted(self.hashes)
        with open(path + '.tmp', 'w') as f:
            json.dump(d, f)
        os.rename(path + '.tmp', path)


def run_shard(prop_id, campaigns, base_seed, tier, shard, nshards, outdir,
              deadline, shrink_seconds=40.0):
    res = ShardResult()
    out = os.path.join(outdir, 'shard-%d.json' % shard)
    cur = os.path.join(outdir, 'shard-%d.cur' % shard)
    viol = os.path.join(outdir, 'shard-%d.viol' % shard)
    _engine.MAX_SHRINKING_SECONDS = shrink_seconds
    t_start = REAL_MONO()
    try:
        for ci, camp in enumerate(campaigns):
            total = camp.quick if tier == 'quick' else camp.thorough
            n = total // nshards + (1 if shard < total % nshards else 0)
            if n == 0:
                continue
            # Later campaigns keep a share of the time.
            left = deadline - (REAL_MONO() - t_start)
            camp_end = REAL_MONO() + max(left, 1.0) / (len(campaigns) - ci) * (
                1.6 if ci + 1 < len(campaigns) else 1.0)
            _run_campaign(prop_id, camp, n, base_seed, shard, res, cur, viol,
                          camp_end, shrink_seconds)
            if res.violation or res.error:
                break
    except BaseException:
        res.error = traceback.format_exc()[-4000:]
    res.dump(out)
    return res


def _run_campaign(prop_id, camp, n, base_seed, shard, res, cur, viol, camp_end,
                  shrink_seconds):
    sd = zlib.crc32(('%s|%s|%s|%d' % (base_seed, prop_id, camp.name, shard)).encode())
    stats = res.per_campaign.setdefault(
        camp.name, {'evaluations': 0, 'nontrivial': 0, 'skipped': 0})
    best = {'case': None, 'msg': None, 'size': None, 't': None}

    def body(case):
        now = REAL_MONO()
        if best['case'] is not None:
            if now - best['t'] > shrink_seconds + 10:
                raise Stop()
        elif now > camp_end:
            res.truncated = True
            raise Stop()
        case = norm(case)
        text = json.dumps({'campaign': camp.name, 'case': case})
        with open(cur, 'w') as f:
            f.write(text)
        try:
            rec = run_case(camp, case)
        except Skip as e:
            if best['case'] is None:
                res.skipped += 1
                stats['skipped'] += 1
                k = 'skip:' + str(e)
                res.labels[k] = res.labels.get(k, 0) + 1
            return
        except Violation as e:
            size = len(text)
            if best['case'] is None or size < best['size']:
                if best['case'] is None:
                    best['t'] = REAL_MONO()
                best.update(case=case, msg=str(e), size=size)
                with open(viol + '.tmp', 'w') as f:
                    json.dump({'campaign': camp.name, 'case': case,
                               'message': str(e)}, f)
                os.rename(viol + '.tmp', viol)
            raise
        if best['case'] is not None:
            return
        res.evaluations += 1
        stats['evaluations'] += 1
        for l in rec.labels:
            res.labels[l] = res.labels.get(l, 0) + 1
        if rec.nontrivial:
            stats['nontrivial'] += 1
            res.hashes.add(case_hash(camp.name, case))
            if len(res.samples) < 3 and len(text) < 4000 and stats['nontrivial'] in (1, 7):
                res.samples.append({'campaign': camp.name, 'case': case,
                                    'labels': sorted(rec.labels)})

    test = settings(
        max_examples=n, database=None, deadline=None, derandomize=False,
        report_multiple_bugs=False, print_blob=False,
        phases=(Phase.generate, Phase.shrink),
        suppress_health_check=list(HealthCheck))(hyp_seed(sd)(given(camp.strategy)(body)))
    try:
        test()
    except Stop:
        pass
    except Violation:
        pass
    except (Flaky, FlakyFailure, BaseExceptionGroup):
        if best['case'] is None:
            raise
    if best['case'] is not None:
        res.violation = {'campaign': camp.name, 'case': best['case'],
                         'message': best['msg']}
    try:
        os.unlink(cur)
    except OSError:
        pass
