"""Property-based checking harness.

A check is a module ``checks/<ID>.py`` which declares *clauses*: an executable
form of one part of the property's statement, driven by a Hypothesis strategy
which yields JSON-able cases.  The harness runs every clause (sharded over the
cores), shrinks failures, writes a replay file and the evidence file.
"""
import contextlib
import copy
import hashlib
import io
import json
import math
import os
import random
import sys
import time
import traceback
import warnings

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')


class Violation(Exception):
    """The property does not hold for the case.

    ``kf`` names the known finding (if any) of which this failure has the
    characteristic signature."""

    def __init__(self, msg, kf=None):
        super().__init__(msg)
        self.kf = kf


class Skip(Exception):
    """The generated case is outside the property's scope."""


def need(cond, msg='', kf=None):
    if not cond:
        raise Violation(msg() if callable(msg) else msg, kf)


def isnum(x):
    import numpy as np
    return isinstance(x, (int, float, np.number, np.bool_)) or (
        isinstance(x, np.ndarray) and x.size == 1)


def num(x):
    """Scalar value of a result; array-wrapped scalars are accepted."""
    import numpy as np
    a = np.asarray(x, dtype=float)
    if a.size != 1:
        raise Violation(f'expected a number, got {x!r}')
    return float(a.reshape(-1)[0])


def close(got, want, rtol=1e-6, atol=0.0):
    g, w = num(got), num(want)
    if math.isnan(g) or math.isnan(w):
        return math.isnan(g) and math.isnan(w)
    if math.isinf(g) or math.isinf(w):
        return g == w
    return abs(g - w) <= atol + rtol * max(abs(g), abs(w))


def check_close(got, want, what, rtol=1e-6, atol=0.0, kf=None):
    try:
        ok = close(got, want, rtol, atol)
    except Violation as v:
        raise Violation(f'{what}: {v}', kf)
    except (TypeError, ValueError):
        raise Violation(f'{what}: got {got!r}, expected {want!r}', kf)
    if not ok:
        raise Violation(f'{what}: got {num(got)!r}, expected {num(want)!r}', kf)


def check_vec(got, want, what, rtol=1e-6, atol=0.0, kf=None):
    """Compare arrays; tolerance relative to the largest wanted entry."""
    import numpy as np
    try:
        g = np.asarray(got, dtype=float).reshape(-1)
    except (TypeError, ValueError):
        raise Violation(f'{what}: got {got!r}', kf)
    w = np.asarray(want, dtype=float).reshape(-1)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape} instead of {w.shape}', kf)
    if w.size == 0:
        return
    if not np.all(np.isfinite(g)):
        raise Violation(f'{what}: non-finite {g}', kf)
    tol = atol + rtol * np.max(np.abs(w))
    d = np.abs(g - w)
    i = int(np.argmax(d))
    if d[i] > tol:
        raise Violation(
            f'{what}[{i}]: got {g[i]!r}, expected {w[i]!r} (tol {tol:.3g})', kf)


class Clause:
    def __init__(self, name, fn, strategy, quick, thorough, rule, shards=None):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.rule = quick, thorough, rule
        self.shards = shards


class Check:
    def __init__(self, prop, rule, assumptions=()):
        self.prop, self.rule = prop, rule
        self.assumptions = list(assumptions)
        self.clauses = []
        self.setup = None

    def clause(self, name, strategy, quick=200, thorough=5000, rule=None,
               shards=None):
        def deco(fn):
            self.clauses.append(
                Clause(name, fn, strategy, quick, thorough, rule, shards))
            return fn
        return deco

    def get(self, name):
        for c in self.clauses:
            if c.name == name:
                return c
        raise KeyError(name)


def _default(o):
    import numpy as np
    if isinstance(o, np.integer):
        return int(o)
    if isinstance(o, np.floating):
        return float(o)
    if isinstance(o, np.ndarray):
        return o.tolist()
    return repr(o)


def dumps(o, **kw):
    return json.dumps(o, default=_default, sort_keys=True, **kw)


def normalise(case):
    return json.loads(dumps(case))


@contextlib.contextmanager
def quiet():
    import numpy as np
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()), \
                np.errstate(all='ignore'):
            yield


def reset_globals():
    """Fresh global state of the code under test for every case."""
    import numpy as np
    random.seed(12345)
    np.random.seed(12345)


class CaseTimeout(Violation):
    pass


CASE_LIMIT = 60


def _alarm(signum, frame):
    raise CaseTimeout(f'no result within {CASE_LIMIT} s')


def execute(check, clause, case):
    """Run one case.  Returns (status, info): 'ok'/'trivial'/'skip'/'fail'."""
    import signal
    reset_globals()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(CASE_LIMIT)
    try:
        with quiet():
            r = clause.fn(copy.deepcopy(case))
    except Skip as e:
        return 'skip', str(e)
    except Violation as v:
        return 'fail', (str(v), v.kf)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:  # crash of the code under test on a valid case
        tb = traceback.format_exc().strip().splitlines()
        return 'fail', (f'{type(e).__name__}: {e} | ' + ' | '.join(
            s.strip() for s in tb[-7:-1])[-600:], getattr(e, 'kf', None))
    finally:
        signal.alarm(0)
    return ('ok', r) if r else ('trivial', None)


class _Found(Exception):
    pass


def run_shard(check, clause, n, seed_value, known, budget):
    """Search with Hypothesis.  Returns stats and at most one shrunk failure."""
    from hypothesis import HealthCheck, Phase, given, seed, settings
    import hypothesis
    st = {'evaluations': 0, 'skipped': 0, 'trivial': 0, 'nontrivial': 0,
          'known': {}, 'labels': {}, 'failure': None, 'truncated': False}
    distinct = set()
    samples = []
    best = {'case': None, 'msg': None, 'size': None}
    t0 = time.time()
    state = {'failed_at': None}

    def body(case):
        now = time.time()
        if state['failed_at'] is None and now - t0 > budget:
            st['truncated'] = True
            return
        if state['failed_at'] is not None and now - state["failed_at"] > 15:
            # stop shrinking
            return
        case = normalise(case)
        status, info = execute(check, clause, case)
        if state['failed_at'] is None:
            st['evaluations'] += 1
        if status == 'skip':
            if state['failed_at'] is None:
                st['skipped'] += 1
            return
        if status == 'fail':
            msg, kf = info
            if kf is not None and kf in known:
                st['known'][kf] = st['known'].get(kf, 0) + 1
                return
            if state['failed_at'] is None:
                state['failed_at'] = now
            size = len(dumps(case))
            if best['size'] is None or size <= best['size']:
                best.update(case=case, msg=msg, size=size)
            raise _Found(msg)
        if state['failed_at'] is not None:
            return
        if status == 'trivial':
            st['trivial'] += 1
        else:
            s = dumps(case)
            h = hashlib.sha1(s.encode()).digest()[:8]
            if h not in distinct:
                distinct.add(h)
                if len(samples) < 3 and len(s) < 1500:
                    samples.append({'clause': clause.name, 'case': case})
            if isinstance(info, str):
                st['labels'][info] = st['labels'].get(info, 0) + 1

    strat = clause.strategy() if callable(clause.strategy) else clause.strategy
    cfg = settings(max_examples=n, database=None, deadline=None,
                   suppress_health_check=list(HealthCheck),
                   phases=[Phase.explicit, Phase.generate, Phase.target,
                           Phase.shrink],
                   print_blob=False, report_multiple_bugs=False,
                   verbosity=hypothesis.Verbosity.quiet)
    test = seed(seed_value)(cfg(given(strat)(body)))
    try:
        with contextlib.redirect_stdout(io.StringIO()), \
                contextlib.redirect_stderr(io.StringIO()):
            test()
    except _Found:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseExceptionGroup:
        pass
    st['nontrivial'] = len(distinct)
    st['hashes'] = [h.hex() for h in distinct]
    st['samples'] = samples
    if best['case'] is not None:
        st['failure'] = {'case': best['case'], 'msg': best['msg']}
    st['wall'] = time.time() - t0
    return st
