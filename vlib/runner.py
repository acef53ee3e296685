"""Runs one check: every property function of checks/<ID>.py against
Hypothesis-generated cases, in parallel processes; writes the evidence file
and replay files.

Exit status: 0 held on everything explored; 1 with a VIOLATION line; 2 the
harness itself failed (never reported as a violation).
"""
import collections
import contextlib
import hashlib
import importlib
import io
import json
import multiprocessing as mp
import os
import re
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings
import zlib

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROC = int(os.environ.get('VERIF_JOBS', '0')) or min(8, os.cpu_count() or 1)


def _digest(s):
    return hashlib.blake2b(s.encode(), digest_size=8).digest()


CASE_LIMIT = 120                     # seconds; cases take milliseconds


class _Stop(BaseException):
    """Ends the search of a worker."""


class _Hang(BaseException):
    """One case takes longer than CASE_LIMIT."""


def _alarm(*args):
    raise _Hang


@contextlib.contextmanager
def quiet():
    """The package prints progress messages; keep them out of our output."""
    with contextlib.redirect_stdout(io.StringIO()), \
            contextlib.redirect_stderr(io.StringIO()):
        yield


def run_case(prop, case, ctx):
    """Runs one case; returns None or a failure text.  Harness faults raise."""
    from vlib import bootstrap
    from vlib.core import Violation, Skip
    cwd = os.getcwd()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet(), warnings.catch_warnings():
            warnings.simplefilter('ignore')
            prop.check(case, ctx)
        return None
    except Violation as e:
        return str(e)
    except (Skip, KeyboardInterrupt):
        raise
    except _Hang:
        return 'no answer within %d s on a valid case' % CASE_LIMIT
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        tb = traceback.extract_tb(e.__traceback__)
        in_repo = [f for f in tb if
                   f.filename.startswith(bootstrap.REPO + os.sep)]
        if not in_repo and isinstance(e, (OSError, MemoryError, ImportError,
                                          NameError)):
            raise
        where = in_repo[-1] if in_repo else tb[-1]
        return '%s on a valid case: %s: %s\n  at %s:%d in %s: %s' % (
            'the code raised' if in_repo else
            'the result could not be used by the oracle',
            type(e).__name__, str(e)[:800], where.filename, where.lineno,
            where.name, where.line)
    finally:
        signal.alarm(0)
        ctx.cleanup()
        os.chdir(cwd)
        if 'matplotlib.pyplot' in sys.modules:
            sys.modules['matplotlib.pyplot'].close('all')


def worker(pid, pname, shard, seed, n, budget, over, conn):
    try:
        out = _worker(pid, pname, shard, seed, n, budget, over)
    except BaseException as e:
        out = {'error': '%s: %s\n%s' % (type(e).__name__, e,
                                        traceback.format_exc())}
    conn.send(out)
    conn.close()


def _worker(pid, pname, shard, seed, n, budget, over):
    import hypothesis
    from hypothesis import HealthCheck, Phase, given, settings
    from vlib.core import Ctx, Skip, canonical_json
    mod = importlib.import_module('checks.' + pid)
    prop = next(p for p in mod.R.props if p.name == pname)
    t0 = time.monotonic()
    st = {'evals': 0, 'skipped': 0, 'shrink_evals': 0, 'timeout': False}
    digests, labels, samples = set(), collections.Counter(), []
    failing = {}                     # digest -> (case, text)
    last = [None]
    first_fail = [None]
    shrink_budget = min(30.0, budget/3)

    def one(case):
        now = time.monotonic()
        key = _digest(canonical_json(case))
        if first_fail[0] is None:
            if now - t0 > budget:
                st['timeout'] = True
                raise _Stop
            if over.is_set():
                raise _Stop          # another worker has a violation
        elif now - first_fail[0] > shrink_budget:
            raise _Stop
        ctx = Ctx()
        try:
            text = run_case(prop, case, ctx)
        except Skip:
            st['skipped'] += 1
            return
        if first_fail[0] is None:
            st['evals'] += 1
            for lab in set(ctx.labels):
                labels[lab] += 1
            if ctx.is_nontrivial and key not in digests:
                digests.add(key)
                if len(samples) < 3:
                    samples.append(case)
        else:
            st['shrink_evals'] += 1
        if text is not None:
            if first_fail[0] is None:
                first_fail[0] = now
            failing[key] = (case, text)
            last[0] = key
            if text.startswith('no answer within'):
                raise _Stop
            raise AssertionError(text)

    # saved inputs first: plain regression cases, no library involved
    if shard == 0:
        for case in prop.examples:
            try:
                one(case)
            except (AssertionError, _Stop):
                break

    if first_fail[0] is None and n > 0:
        @hypothesis.seed(seed)
        @settings(max_examples=n, database=None, deadline=None,
                  phases=(Phase.generate, Phase.target, Phase.shrink),
                  report_multiple_bugs=False, print_blob=False,
                  suppress_health_check=[HealthCheck.too_slow,
                                         HealthCheck.data_too_large,
                                         HealthCheck.large_base_example])
        @given(prop.strategy())
        def test(case):
            one(case)
        try:
            with quiet():
                test()
        except _Stop:
            pass
        except BaseException as e:
            if last[0] is None:
                raise
            if not isinstance(e, (AssertionError,
                                  hypothesis.errors.HypothesisException,
                                  BaseExceptionGroup)):
                raise
    res = dict(st, labels=dict(labels), samples=samples,
               digests=b''.join(sorted(digests)), error=None,
               wall=time.monotonic() - t0)
    if last[0] is not None:
        over.set()
        case, text = failing[last[0]]
        res['failure'] = {'prop': pname, 'case': case, 'text': text}
    return res


def read_known():
    """known_findings.txt: lines 'finding: property=ID key=KEY text'."""
    path = os.path.join(HERE, 'known_findings.txt')
    out = []
    if os.path.exists(path):
        for line in open(path):
            m = re.match(r'finding: property=(\S+) key=(\S+) (.*)', line)
            if m:
                out.append(m.groups())
    return out


def main(argv):
    scratch = tempfile.mkdtemp(prefix='verif-')
    os.environ['VERIF_SCRATCH'] = scratch
    try:
        return _main(argv, scratch)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)


def _main(argv, scratch):
    if not argv:
        print(__doc__)
        return 2
    from vlib import bootstrap
    bootstrap.setup(scratch)
    if argv[0] == 'replay':
        return replay(argv[1])
    if argv[0] == 'selftest':
        return selftest()
    pid = argv[0]
    tier = argv[1] if len(argv) > 1 else os.environ.get('VERIF_TIER', 'quick')
    only = argv[2:] or None
    base = int(os.environ.get('VERIF_SEED', '1') or '1')
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    t0 = time.monotonic()
    with quiet(), warnings.catch_warnings():
        warnings.simplefilter('ignore')
        mod = importlib.import_module('checks.' + pid)
    R = mod.R
    budget = 240.0 if tier == 'quick' else 780.0
    hard = 700.0 if tier == 'quick' else 3000.0

    known_lines = []
    for kid, key, text in read_known():
        if kid != pid:
            continue
        ctx_ok = R.probes.get(key)
        if ctx_ok is None:
            print('harness error: no probe for known finding', key)
            return 2
        with quiet():
            still = ctx_ok()
        if still:
            known_lines.append('KNOWN-FINDING: property=%s %s: %s'
                               % (pid, key, text))

    jobs = []
    for p in R.props:
        if only and p.name not in only:
            continue
        n = p.quick*getattr(mod, 'QUICK', 4) if tier == 'quick' else \
            p.thorough
        n = int(round(n*scale))
        shards = max(p.shards, 4)
        shards = max(1, min(shards, n or 1))
        for s in range(shards):
            k = n//shards + (1 if s < n % shards else 0)
            seed = (base*1000003 + s*7919 +
                    zlib.crc32((pid + p.name).encode())) % (2**63)
            jobs.append((p.name, s, seed, k))
    results = []
    ctxm = mp.get_context('fork')
    over = ctxm.Event()
    pending = list(jobs)
    running = []
    errors = []
    while pending or running:
        while pending and len(running) < PROC:
            name, s, seed, k = pending.pop(0)
            r, w = ctxm.Pipe(False)
            pr = ctxm.Process(target=worker,
                              args=(pid, name, s, seed, k, budget, over, w))
            pr.start()
            w.close()
            running.append((pr, r, name, s, time.monotonic()))
        time.sleep(0.01)
        for item in list(running):
            pr, r, name, s, ts = item
            if r.poll():
                try:
                    results.append((name, s, r.recv()))
                except EOFError:
                    errors.append('%s shard %d: worker died' % (name, s))
                pr.join()
                running.remove(item)
            elif not pr.is_alive() and not r.poll():
                errors.append('%s shard %d: worker died (exit %s)'
                              % (name, s, pr.exitcode))
                running.remove(item)
            elif time.monotonic() - t0 > hard:
                pr.kill()
                pr.join()
                errors.append('%s shard %d: no answer within %.0f s'
                              % (name, s, hard))
                running.remove(item)
    per = {}
    failures = []
    for name, s, res in sorted(results, key=lambda x: (x[0], x[1])):
        if res.get('error'):
            errors.append('%s shard %d: %s' % (name, s, res['error']))
            continue
        d = per.setdefault(name, {
            'evaluations': 0, 'outside_domain': 0, 'labels':
            collections.Counter(), 'digests': set(), 'samples': [],
            'shrink_evaluations': 0, 'time_budget_hit': False, 'cpu_s': 0.0})
        d['evaluations'] += res['evals']
        d['outside_domain'] += res['skipped']
        d['shrink_evaluations'] += res['shrink_evals']
        d['labels'].update(res['labels'])
        d['samples'] += res['samples']
        d['time_budget_hit'] |= res['timeout']
        d['cpu_s'] += res['wall']
        b = res['digests']
        d['digests'].update(b[i:i+8] for i in range(0, len(b), 8))
        if 'failure' in res:
            failures.append(res['failure'])

    ev = sum(d['evaluations'] for d in per.values())
    nt = sum(len(d['digests']) for d in per.values())
    rules = {p.name: p.rule for p in R.props}
    samples = []
    for name in sorted(per):
        for c in per[name]['samples'][:2]:
            samples.append({'check': name, 'case': c})
    for p in R.props:
        d = per.get(p.name)
        if d and not only and d['evaluations'] >= 60 and \
                len(d['digests']) < 0.02*d['evaluations'] and not failures:
            errors.append('%s: only %d of %d cases were non-trivial'
                          % (p.name, len(d['digests']), d['evaluations']))
    evidence = {
        'property': pid, 'tier': tier if tier in ('quick', 'thorough')
        else 'quick', 'seed': base, 'level': 'exploration',
        'coverage': {
            'evaluations': ev, 'distinct_nontrivial': nt,
            'rule': 'Hypothesis-generated cases, one stream per sub-check; '
                    'a case counts once per distinct JSON value and only if '
                    'it is non-trivial: ' + ' | '.join(
                        '%s: %s' % (n, rules[n]) for n in sorted(per)),
            'samples': samples,
            'sub_checks': {n: {
                'evaluations': d['evaluations'],
                'distinct_nontrivial': len(d['digests']),
                'outside_domain': d['outside_domain'],
                'classes': dict(sorted(d['labels'].items())),
                'time_budget_hit': d['time_budget_hit'],
                'cpu_s': round(d['cpu_s'], 2)} for n, d in
                sorted(per.items())},
        },
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
        'wall_s': round(time.monotonic() - t0, 2),
        'violations': len(failures),
    }
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    path = os.path.join(HERE, 'evidence', pid + '.json')
    with open(path + '.tmp', 'w') as f:
        json.dump(evidence, f, indent=1)
        f.write('\n')
    os.replace(path + '.tmp', path)

    for line in known_lines:
        print(line)
    print('%s %s: %d cases (%d distinct non-trivial) in %.1f s' % (
        pid, tier, ev, nt, time.monotonic() - t0))
    if os.environ.get('VERIF_VERBOSE'):
        for n, d in sorted(per.items()):
            print('  %-38s %6d cases %6d nontrivial %5d skipped %6.1f s %s%s'
                  % (n, d['evaluations'], len(d['digests']),
                     d['outside_domain'], d['cpu_s'],
                     dict(sorted(d['labels'].items())),
                     ' TIMEOUT' if d['time_budget_hit'] else ''))
    status = 0
    if failures:
        rep = os.path.join(HERE, 'replays')
        os.makedirs(rep, exist_ok=True)
        seen = set()
        for f in failures:
            if f['prop'] in seen:
                continue
            seen.add(f['prop'])
            tag = hashlib.sha1(json.dumps(f['case'], sort_keys=True).encode()
                               ).hexdigest()[:10]
            fn = os.path.join(rep, '%s-%s-%s.json' % (pid, f['prop'], tag))
            with open(fn, 'w') as g:
                json.dump(dict(f, property=pid), g, indent=1)
            print('-- %s: %s' % (f['prop'], f['text']))
            print('   minimal case: ' + json.dumps(f['case'])[:1500])
            print('VIOLATION property=%s replay=%s' % (pid, fn))
        status = 1
    for e in errors:
        print('harness error: ' + e)
    if errors and not status:
        status = 2
    return status


def selftest():
    """Everything the checks import is there, and a broken property is
    reported as one."""
    import hypothesis
    from vlib.core import Prop, Violation, Ctx

    def odd(case, ctx):
        if case >= 17:
            raise Violation('too big')
    p = Prop('odd', None, odd, 1, 1, '')
    assert run_case(p, 3, Ctx()) is None and run_case(p, 20, Ctx())
    with quiet():
        for f in sorted(os.listdir(os.path.join(HERE, 'checks'))):
            if re.fullmatch(r'C\d+\.py', f):
                importlib.import_module('checks.' + f[:-3])
    print('ready: hypothesis', hypothesis.__version__)
    return 0


def replay(path):
    from vlib.core import Ctx
    with open(path) as f:
        rec = json.load(f)
    with quiet():
        mod = importlib.import_module('checks.' + rec['property'])
    prop = next(p for p in mod.R.props if p.name == rec['prop'])
    from vlib.core import Skip
    try:
        text = run_case(prop, rec['case'], Ctx())
    except Skip:
        print('replay: the check leaves this case out')
        return 0
    if text is None:
        print('replay: the property holds on this case')
        return 0
    print('-- %s: %s' % (rec['prop'], text))
    print('VIOLATION property=%s replay=%s' % (rec['property'], path))
    return 1


if __name__ == '__main__':
    sys.exit(main(sys.argv[1:]))
