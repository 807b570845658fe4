"""Bounded exhaustive exploration harness.

A check module defines
    ID, BOUNDS (dict tier->text), ASSUMPTIONS (list)
    cases(tier)     -> iterable of JSON-able case descriptors, simplest first
    run(case, ctx)  -> executes the real code on the case and compares every
                       observation with the reference model through ctx

Every case of the enumeration is executed (no sampling, no cap); the harness
counts states / transitions / comparisons as they happen.  Any exception
escaping from a case counts as a violation: the code failed to produce the
observation which the reference model defines.
"""
import hashlib
import importlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CASE_TIMEOUT = 240
GLOBAL_TIMEOUT = {'quick': 840, 'thorough': 6 * 3600}


class Violation(Exception):
    """A disagreement between the real code and the reference model."""

    def __init__(self, clause, message):
        super().__init__('%s: %s' % (clause, message))
        self.clause = clause
        self.message = message


def canon(obj, digits=7):
    """Canonical, order-insensitive-where-unordered form of a value."""
    if isinstance(obj, (bool, np.bool_)):
        return bool(obj)
    if isinstance(obj, (int, np.integer)):
        return int(obj)
    if isinstance(obj, (float, np.floating)):
        val = float(obj)
        if val != val:
            return 'nan'
        val = round(val, digits)
        return val if val != 0 else 0.0
    if isinstance(obj, (complex, np.complexfloating)):
        return ['c', canon(obj.real, digits), canon(obj.imag, digits)]
    if isinstance(obj, str) or obj is None:
        return obj
    if isinstance(obj, dict):
        return ['d'] + sorted(([json.dumps(canon(k)), canon(v, digits)] for k, v in obj.items()),
                              key=lambda kv: kv[0])
    if isinstance(obj, (set, frozenset)):
        return ['s'] + sorted(json.dumps(canon(x)) for x in obj)
    if isinstance(obj, np.ndarray):
        return ['a', list(obj.shape)] + [canon(x, digits) for x in obj.ravel().tolist()]
    if isinstance(obj, (list, tuple, range)):
        return [canon(x, digits) for x in obj]
    return repr(obj)


def near(one, two):
    """Canonical forms are equal but for rounding of floats."""
    if isinstance(one, list) and isinstance(two, list):
        return len(one) == len(two) and all(near(a, b) for a, b in zip(one, two))
    if isinstance(one, float) and isinstance(two, (int, float)) and not isinstance(two, bool) or \
            isinstance(two, float) and isinstance(one, int) and not isinstance(one, bool):
        return one == two or abs(one - two) < 1e-9
    return type(one) is type(two) and one == two


def digest(obj):
    """64-bit hash of the canonical form."""
    data = json.dumps(canon(obj), sort_keys=True).encode()
    return int.from_bytes(hashlib.blake2b(data, digest_size=8).digest(), 'big')


class Ctx:
    """Collects what one case covered."""

    def __init__(self, tier):
        self.tier = tier
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.comparisons = 0
        self.kinds = {}

    def state(self, *obj):
        """Record a distinct explored state / input point."""
        self.states.add(digest(obj))

    def outcome(self, *obj):
        """Record an observed behaviour of the implementation."""
        self.outcomes.add(digest(obj))

    def step(self, n=1):
        """Record n operations executed on the real code."""
        self.transitions += n

    def kind(self, name, n=1):
        """Record a category of case, for the evidence breakdown."""
        self.kinds[name] = self.kinds.get(name, 0) + n

    # -- oracles ----------------------------------------------------------
    def fail(self, clause, message):
        """Report a disagreement."""
        raise Violation(clause, message)

    def check(self, clause, cond, message=''):
        """Boolean oracle."""
        self.comparisons += 1
        if not cond:
            raise Violation(clause, str(message)[:2000])

    def equal(self, clause, got, want, what=''):
        """Exact equality oracle (after canonicalisation)."""
        self.comparisons += 1
        if canon(got) != canon(want) and not near(canon(got, 12), canon(want, 12)):
            raise Violation(clause, '%s got %s, expected %s' %
                            (what, str(got)[:900], str(want)[:900]))

    def close(self, clause, got, want, tol=1e-8, what=''):
        """Numeric oracle."""
        self.comparisons += 1
        got = np.asarray(got)
        want = np.asarray(want)
        if got.shape != want.shape:
            raise Violation(clause, '%s shape %s, expected %s' % (what, got.shape, want.shape))
        if got.size == 0:
            return
        diff = np.abs(got - want)
        bad = not np.all(np.isfinite(diff)) or np.max(diff) > tol
        if bad:
            raise Violation(clause, '%s got %s, expected %s (tol %g)' %
                            (what, str(np.round(got, 6))[:900],
                             str(np.round(want, 6))[:900], tol))

    def raises(self, clause, exc, func, what=''):
        """The call must be rejected with one of the exceptions exc."""
        self.comparisons += 1
        try:
            val = func()
        except exc:
            return
        raise Violation(clause, '%s was accepted (returned %s)' % (what, str(val)[:300]))


class CaseTimeout(Exception):
    """A case did not terminate."""


def _alarm(signum, frame):
    raise CaseTimeout('case did not finish')


def _run_one(mod, case, tier, timeout):
    """Run one case; returns (ctx, violation or None)."""
    ctx = Ctx(tier)
    viol = None
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(timeout))
    try:
        mod.run(case, ctx)
    except Violation as exc:
        viol = dict(clause=exc.clause, message=exc.message)
    except CaseTimeout:
        viol = dict(clause='termination', message='no answer within %d s' % timeout)
    except KeyboardInterrupt:
        raise
    except BaseException as exc:  # pylint: disable=broad-except
        viol = dict(clause='exception:' + type(exc).__name__,
                    message=(str(exc)[:500] + '\n' + traceback.format_exc()[-1800:]))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx, viol


_MOD = None
_TIER = None


def _worker(chunk):
    """Run a chunk of (index, case)."""
    tot = Ctx(_TIER)
    done = 0
    viols = []
    timeout = getattr(_MOD, 'CASE_TIMEOUT', CASE_TIMEOUT)
    ran = []
    for index, case in chunk:
        ctx, viol = _run_one(_MOD, case, _TIER, timeout)
        tot.states |= ctx.states
        tot.outcomes |= ctx.outcomes
        tot.transitions += ctx.transitions
        tot.comparisons += ctx.comparisons
        for k, v in ctx.kinds.items():
            tot.kinds[k] = tot.kinds.get(k, 0) + v
        ran.append(index)
        if viol:
            viol.update(index=index, case=case, before=list(ran[:-1]))
            viols.append(viol)
            if len(viols) >= 5 and not getattr(_MOD, 'REPORT_ALL', False):
                break
        else:
            done += 1
    return dict(states=tot.states, outcomes=tot.outcomes, transitions=tot.transitions,
                comparisons=tot.comparisons, kinds=tot.kinds, done=done, viols=viols)


def load_known():
    """The committed list of known findings."""
    path = os.path.join(VERIF, 'known_findings.json')
    if not os.path.exists(path):
        return []
    with open(path) as handle:
        return json.load(handle)['findings']


def vkey(viol):
    """Identity of a violation: clause and exact case."""
    return viol['clause'] + ' @ ' + json.dumps(viol['case'], sort_keys=True)


def assert_repo():
    """The code under test must be /repo's working tree."""
    import qiskit.ignis
    path = os.path.realpath(list(qiskit.ignis.__path__)[0])
    if not path.startswith(REPO + '/'):
        print('ERROR: qiskit.ignis imported from %s' % path)
        sys.exit(2)


def main(argv):
    """Run a check."""
    global _MOD, _TIER
    t0 = time.time()
    pid, tier = argv[0], argv[1]
    seed = int(os.environ.get('VERIF_SEED', '0') or 0)
    assert_repo()
    mod = importlib.import_module('checks.' + pid.lower())
    _MOD, _TIER = mod, tier

    if '--replay' in argv:
        with open(argv[argv.index('--replay') + 1]) as handle:
            rep = json.load(handle)
        for case in rep.get('history', []):
            _run_one(mod, case, tier, 600)
        _, viol = _run_one(mod, rep['case'], tier, 600)
        print(json.dumps(viol, indent=1))
        return 1 if viol else 0

    cases = list(enumerate(mod.cases(tier)))
    nproc = min(int(os.environ.get('VERIF_JOBS', '0')) or os.cpu_count() or 1, 8)
    nproc = max(1, min(nproc, len(cases)))
    target = getattr(mod, 'CHUNK', None) or max(1, min(64, len(cases) // (nproc * 8) or 1))
    chunks = [cases[i:i + target] for i in range(0, len(cases), target)]
    # spread expensive (late) chunks: large first is better for balance
    order = list(reversed(range(len(chunks))))

    known = [k for k in load_known() if k.get('status') == 'known' and k['property'] == pid]
    known_keys = {k['key']: k for k in known}
    tot = Ctx(tier)
    done = 0
    viols = []
    hung = False
    limit = float(os.environ.get('VERIF_LIMIT', GLOBAL_TIMEOUT.get(tier, 840)))
    mpctx = mp.get_context('fork')
    failfast = bool(os.environ.get('VERIF_FAILFAST'))
    if nproc == 1:
        if failfast:
            order.reverse()
        results = (_worker(chunks[i]) for i in order)
        pool = None
    else:
        pool = mpctx.Pool(nproc, maxtasksperchild=getattr(mod, 'MAXTASKS', None))
        results = pool.imap_unordered(_worker, [chunks[i] for i in order])
    nres = 0
    while nres < len(chunks):
        try:
            if pool is None:
                res = next(results)
            else:
                res = results.next(timeout=max(1.0, limit - (time.time() - t0)))
        except mp.TimeoutError:
            hung = True
            break
        nres += 1
        tot.states |= res['states']
        tot.outcomes |= res['outcomes']
        tot.transitions += res['transitions']
        tot.comparisons += res['comparisons']
        for k, v in res['kinds'].items():
            tot.kinds[k] = tot.kinds.get(k, 0) + v
        done += res['done']
        viols.extend(res['viols'])
        if failfast and any(vkey(v) not in known_keys for v in viols):
            break
    if pool is not None:
        pool.terminate()
        pool.join()

    # whole-run oracle over the union of outcomes, if the check has one
    if hasattr(mod, 'finish') and not hung and all(vkey(v) in known_keys for v in viols):
        try:
            mod.finish(tot)
        except Violation as exc:
            viols.append(dict(clause=exc.clause, message=exc.message, index=-1,
                              case='whole-run', before=[]))
    if hung:
        viols.append(dict(clause='termination', index=-1, case='whole-run', before=[],
                          message='exploration did not finish within %d s' % limit))

    viols.sort(key=lambda v: v['index'])
    new = [v for v in viols if vkey(v) not in known_keys]
    hit = [known_keys[vkey(v)] for v in viols if vkey(v) in known_keys]
    for k in hit:
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))

    rc = 0
    outdir = os.path.join(VERIF, 'out')
    if new:
        rc = 1
        os.makedirs(outdir, exist_ok=True)
        first = new[0]
        hist = []
        if first['index'] >= 0:
            # re-run alone in a fresh process to establish determinism
            with mpctx.Pool(1) as one:
                again = one.apply(_worker, ([(first['index'], first['case'])],))
            if not again['viols']:
                hist = [cases[i][1] for i in first['before']]
        rep = dict(property=pid, tier=tier, clause=first['clause'], message=first['message'],
                   case=first['case'], reproduced_alone=not hist, history=hist,
                   total_violations=len(new),
                   others=[dict(clause=v['clause'], case=v['case'],
                                message=v['message'][:300]) for v in new[1:10]],
                   how='./check.sh %s %s --replay <this file>' % (pid, tier))
        path = os.path.join(outdir, '%s-%016x.json' % (pid, digest(vkey(first))))
        with open(path, 'w') as handle:
            json.dump(rep, handle, indent=1, default=str)
        print('clause: %s' % first['clause'])
        print('case:   %s' % json.dumps(first['case'])[:1500])
        print('detail: %s' % first['message'][:3000])
        print('violating cases: %d' % len(new))
        print('VIOLATION property=%s replay=%s' % (pid, path))

    samples = []
    if cases:
        for i in sorted({0, len(cases) // 3, 2 * len(cases) // 3, len(cases) - 1}):
            samples.append(cases[i][1])
    cov = dict(states=len(tot.states), transitions=tot.transitions,
               traces_validated_against_impl=done,
               distinct_outcomes=len(tot.outcomes), comparisons=tot.comparisons,
               cases_enumerated=len(cases), breakdown=tot.kinds,
               bounds=mod.BOUNDS[tier] if isinstance(mod.BOUNDS, dict) else mod.BOUNDS,
               exhaustive=(nres == len(chunks) and not new),
               samples=samples,
               rule='every case in the stated bounds is executed on the code in /repo and '
                    'every observation compared with the reference model; a state is a '
                    'distinct (input, history or configuration) point, a transition one '
                    'operation of the real code, a trace one complete case')
    ev = dict(property=pid, tier=tier, seed=seed, level='model_checking', coverage=cov,
              assumptions=list(mod.ASSUMPTIONS), wall_s=round(time.time() - t0, 2),
              violations=len(new))
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as handle:
        json.dump(ev, handle, indent=1, default=str)
    print('%s %s: cases=%d states=%d transitions=%d comparisons=%d outcomes=%d wall=%.1fs rc=%d'
          % (pid, tier, len(cases), len(tot.states), tot.transitions, tot.comparisons,
             len(tot.outcomes), time.time() - t0, rc))
    sys.stdout.flush()
    return rc
