"""Runner for property checks: hypothesis drives generated cases through an
oracle, failures are shrunk and written as replay files.

A property module defines SUBS, a list of Sub(...).  Each Sub pairs a
hypothesis strategy producing plain JSON-able data with a function
fn(case, ctx) which raises Violation when the oracle disagrees.  Everything a
case depends on is inside the case, so a replay file is the JSON of the case.
"""
import collections
import contextlib
import hashlib
import importlib
import json
import multiprocessing
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

from pbt import env

VERIF = env.VERIF
REPLAYS = os.path.join(VERIF, 'replays')
CPU_LIMIT = 90  # seconds of CPU for one case; cases normally need < 1 s


class Violation(Exception):
    "the oracle disagrees with the code under test"


class HarnessError(Exception):
    "the check itself cannot run"


class CaseTimeout(BaseException):
    "one case used CPU_LIMIT seconds of CPU: a non-terminating computation"


class StopSearch(BaseException):
    "stop a search immediately with the case at hand"


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, rule='',
                 shards=None, cpu=CPU_LIMIT):
        self.name, self.strategy, self.fn = name, strategy, fn
        self.quick, self.rule = quick, rule
        self.thorough = thorough if thorough is not None else 15*quick
        self.shards = shards
        self.cpu = cpu


class Ctx:
    """per-case context: classification of the case"""

    def __init__(self):
        self.labels = []
        self.is_nontrivial = False
        self.skipped = None
        self.note = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, text):
        self.labels.append(str(text))


def expect(cond, msg, *args):
    if not cond:
        raise Violation(msg % args if args else msg)


def expect_close(a, b, tol, msg, *args):
    import numpy as np
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    if a.shape != b.shape:
        raise Violation('%s: shapes %s and %s' % (
            msg % args if args else msg, a.shape, b.shape))
    ok = np.abs(a - b) <= tol
    if not ok.all():
        raise Violation('%s: got %s, expected %s' % (
            msg % args if args else msg, a.tolist(), b.tolist()))


@contextlib.contextmanager
def quiet():
    "silences python-level stdout of the code under test"
    old = sys.stdout
    with open(os.devnull, 'w') as null:
        sys.stdout = null
        try:
            yield
        finally:
            sys.stdout = old


def unavailable(exc):
    "is the entry point that the harness calls absent or re-parametrised?"
    if isinstance(exc, ImportError):
        return True
    if isinstance(exc, ValueError):
        # another number of results
        return 'values to unpack' in str(exc)
    if isinstance(exc, AttributeError):
        return isinstance(getattr(exc, 'obj', None), type(os))
    if isinstance(exc, TypeError):
        text = str(exc)
        name = text.split('(')[0].split('.')[-1]
        if any(name in vars(m) and getattr(
                getattr(m, name), '__module__', '').startswith('pbt')
               for key, m in list(sys.modules.items())
               if key.startswith('pbt') and m is not None):
            return False  # a mistake of the harness itself
        return ('positional argument' in text or 'keyword argument' in text
                or 'required keyword-only' in text)
    return False


def _on_cpu(signum, frame):
    raise CaseTimeout()


def run_case(sub, case):
    """runs one case; returns (ctx, violation message or None)"""
    import numpy as np
    ctx = Ctx()
    random.seed(20261119)
    np.random.seed(20261119)
    signal.signal(signal.SIGVTALRM, _on_cpu)
    signal.setitimer(signal.ITIMER_VIRTUAL, sub.cpu)
    try:
        with quiet():
            sub.fn(case, ctx)
        return ctx, None
    except Violation as exc:
        return ctx, str(exc)
    except HarnessError:
        raise
    except CaseTimeout:
        raise
    except Exception as exc:  # crash reached from a valid input
        tb = traceback.extract_tb(exc.__traceback__)
        inside = [f for f in tb
                  if f.filename.startswith(os.path.join(env.REPO, 'src'))]
        where = tb[-1]
        if not inside and unavailable(exc):
            # an internal helper was renamed, moved or re-parametrised: there
            # is nothing to judge here, other checks cover the behaviour
            ctx.skipped = '%s: %s' % (type(exc).__name__, exc)
            return ctx, None
        if not inside and (isinstance(exc, (NameError, SyntaxError)) or
                           isinstance(exc, TypeError)
                           and 'argument' in str(exc)):
            raise
        return ctx, 'unexpected %s: %s (%s:%d)' % (
            type(exc).__name__, str(exc).strip()[:300],
            os.path.relpath(where.filename, env.REPO)
            if inside else where.filename, where.lineno)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _key(case):
    return hashlib.sha1(
        json.dumps(case, sort_keys=True).encode()).hexdigest()[:16]


def search(prop, sub, seed, n_examples, deadline_at=None):
    """hypothesis search; returns a dict of results"""
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    stats = dict(sub=sub.name, evaluations=0, labels=collections.Counter(),
                 keys=set(), samples=[], failure=None, timeout=None)
    state = dict(failing=None, last=None, shrink_until=None)

    def body(case):
        if state['shrink_until'] is not None \
        and time.monotonic() > state['shrink_until']:
            raise StopSearch()
        stats['evaluations'] += 1
        state['last'] = case
        ctx, message = run_case(sub, case)
        if ctx.skipped:
            stats['labels']['SKIPPED ' + ctx.skipped[:120]] += 1
            raise StopSearch()
        for label in ctx.labels:
            stats['labels'][label] += 1
        if ctx.is_nontrivial:
            key = _key(case)
            if key not in stats['keys']:
                stats['keys'].add(key)
                if len(stats['samples']) < 3:
                    stats['samples'].append(case)
        if message is not None:
            state['failing'] = (case, message)
            if state['shrink_until'] is None:
                # shrinking is bounded so that the check always answers
                state['shrink_until'] = time.monotonic() + 60
            raise Violation(message.split('\n')[0][:40])

    test = given(case=sub.strategy)(body)
    test = settings(
        max_examples=n_examples, database=None, deadline=None,
        suppress_health_check=list(HealthCheck), print_blob=False,
        report_multiple_bugs=False,
        phases=(Phase.generate, Phase.shrink))(test)
    test = hypothesis.seed(seed)(test)
    try:
        with contextlib.redirect_stderr(open(os.devnull, 'w')):
            test()
    except (Violation, StopSearch):
        pass
    except CaseTimeout:
        stats['failure'] = (state['last'], 'no answer after %d s of CPU '
                            '(cases normally take well under 1 s)' % sub.cpu)
    except Exception as exc:
        if state['failing'] is None:
            raise
        stats['note'] = repr(exc)
    if state['failing'] is not None:
        stats['failure'] = state['failing']
    return stats


# ---------------------------------------------------------------------------
# worker processes
# ---------------------------------------------------------------------------
def load(prop):
    env.setup()
    return importlib.import_module('pbt.props.' + prop.lower())


def _worker(args):
    prop, index, seed, n_examples, scratch = args
    os.environ['HYPOTHESIS_STORAGE_DIRECTORY'] = scratch
    try:
        workdir = tempfile.mkdtemp(dir=scratch)
        os.chdir(workdir)
        t0 = time.monotonic()
        mod = load(prop)
        sub = mod.SUBS[index]
        res = search(prop, sub, seed, n_examples)
        res['keys'] = list(res['keys'])
        res['labels'] = dict(res['labels'])
        res['wall'] = time.monotonic() - t0
        os.chdir('/')
        shutil.rmtree(workdir, ignore_errors=True)
        return res
    except BaseException:
        return dict(sub='#%d' % index, error=traceback.format_exc())


def run_property(prop, tier, seed, title='', only=None, scale=1.0):
    t0 = time.monotonic()
    mod = load(prop)
    n_proc = min(8, os.cpu_count() or 1)
    scratch = tempfile.mkdtemp(prefix='bella-pbt-')
    violations = []
    try:
        # 1. saved cases (regressions and former failures), no library involved
        n_saved = 0
        os.chdir(scratch)
        for path in saved_cases(prop):
            data = json.load(open(path))
            sub = {s.name: s for s in mod.SUBS}.get(data['sub'])
            if sub is None or (only and sub.name not in only):
                continue
            n_saved += 1
            try:
                _, message = run_case(sub, data['case'])
            except CaseTimeout:
                message = 'no answer after %d s of CPU' % sub.cpu
            if message is not None:
                violations.append((sub.name, data['case'], message))
                break
        os.chdir('/')
        # 2. generated search, sharded over processes
        jobs = []
        for index, sub in enumerate(mod.SUBS):
            if only and sub.name not in only:
                continue
            total = sub.quick if tier == 'quick' else sub.thorough
            total = max(1, int(total*scale))
            shards = sub.shards or (n_proc if total >= 8*n_proc else 1)
            for shard in range(shards):
                jobs.append((prop, index, 100003*seed + 97*index + shard,
                             max(1, total // shards), scratch))
        results = []
        if not violations:
            jobs.sort(key=lambda j: -j[3])
            mp = multiprocessing.get_context('fork')
            with mp.Pool(n_proc, maxtasksperchild=4) as pool:
                for res in pool.imap_unordered(_worker, jobs, chunksize=1):
                    results.append(res)
                    if 'error' in res:
                        pool.terminate()
                        raise HarnessError(res['error'])
                    if res['failure'] is not None:
                        violations.append((res['sub'],) + tuple(
                            res['failure']))
                        if len(violations) >= 3 or tier == 'quick':
                            pool.terminate()
                            break
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)

    # 3. evidence
    evaluations = sum(r['evaluations'] for r in results) + n_saved
    per_sub = {}
    nontrivial = 0
    samples = []
    for sub in mod.SUBS:
        rs = [r for r in results if r['sub'] == sub.name]
        if not rs:
            continue
        keys = set()
        labels = collections.Counter()
        for r in rs:
            keys.update(r['keys'])
            labels.update(r['labels'])
            if len(samples) < 12:
                samples += [dict(check=sub.name, case=s)
                            for s in r['samples'][:1]]
        nontrivial += len(keys)
        per_sub[sub.name] = dict(
            evaluations=sum(r['evaluations'] for r in rs),
            distinct_nontrivial=len(keys), rule=sub.rule,
            classes=dict(sorted(labels.items())))
    evidence = dict(
        property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(
            evaluations=evaluations, distinct_nontrivial=nontrivial,
            rule='; '.join('%s: %s' % (s.name, s.rule) for s in mod.SUBS),
            samples=json.loads(json.dumps(samples))[:12],
            saved_cases_replayed=n_saved, per_check=per_sub),
        assumptions=getattr(mod, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2), violations=len(violations))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1)
    return evidence, violations


def saved_cases(prop):
    folder = os.path.join(VERIF, 'regress')
    if not os.path.isdir(folder):
        return []
    return [os.path.join(folder, f) for f in sorted(os.listdir(folder))
            if f.startswith(prop + '-') and f.endswith('.json')]


def write_replay(prop, sub, case, message):
    os.makedirs(REPLAYS, exist_ok=True)
    path = os.path.join(REPLAYS, '%s-%s-%s.json' % (prop, sub, _key(case)))
    with open(path, 'w') as f:
        json.dump(dict(property=prop, sub=sub, case=case, message=message),
                  f, indent=1)
    return path


def known_findings(prop):
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    return [k for k in json.load(open(path)).get('findings', [])
            if k['property'] == prop]


def replay(path):
    data = json.load(open(path))
    mod = load(data['property'])
    sub = {s.name: s for s in mod.SUBS}[data['sub']]
    scratch = tempfile.mkdtemp(prefix='bella-pbt-')
    os.chdir(scratch)
    try:
        try:
            _, message = run_case(sub, data['case'])
        except CaseTimeout:
            message = 'no answer after %d s of CPU' % sub.cpu
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
    return data['property'], message
