"""Registry of sub-checks, the per-case context and the worker side of the runner.

A sub-check is ``fn(case, ctx)`` where ``case`` is a JSON-able value drawn from a hypothesis
strategy.  It returns normally when the property holds on the case and calls ``ctx.fail`` (or
``ctx.close`` ...) otherwise.  Because a case is plain JSON, a shrunk failure *is* the replay file.
"""

import contextlib
import hashlib
import json
import os
import shutil
import tempfile
import time
import traceback

REGISTRY = {}  # property -> {name: SubCheck}


class Violation(AssertionError):
    """The property does not hold on this case."""


class HarnessError(Exception):
    """Something in the harness itself is wrong; never a violation."""


class Discard(Exception):
    """The case lies outside the domain of the property (counted, kept rare)."""


class SubCheck:
    def __init__(self, prop, name, fn, strategy, quick, thorough, rule, shards, known):
        self.prop, self.name, self.fn, self.strategy = prop, name, fn, strategy
        self.quick, self.thorough, self.rule, self.shards, self.known = quick, thorough, rule, shards, known


def subcheck(prop, name, strategy, quick=100, thorough=None, rule='', shards=1):
    """Register ``fn`` as a generated-input check of property ``prop``."""

    def deco(fn):
        d = REGISTRY.setdefault(prop, {})
        if name in d:
            raise HarnessError(f'duplicate subcheck {prop}/{name}')
        d[name] = SubCheck(prop, name, fn, strategy, quick, thorough or quick * 25, rule, shards, None)
        return fn

    return deco


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


class Ctx:
    """What a sub-check gets besides the case: scratch space, oracles' comparison helpers, labels."""

    def __init__(self, scratch):
        self._scratch = scratch
        self._tmp = None
        self._ntmp = 0
        self.labels = []
        self.nontrivial = False

    # -- scratch -----------------------------------------------------------------------------
    @property
    def tmp(self):
        if self._tmp is None:
            self._tmp = tempfile.mkdtemp(prefix='case', dir=self._scratch)
        return self._tmp

    def path(self, name):
        return os.path.join(self.tmp, name)

    def cleanup(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None

    # -- classification ----------------------------------------------------------------------
    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    def interesting(self, cond=True):
        if cond:
            self.nontrivial = True

    def discard(self):
        raise Discard

    # -- oracles -----------------------------------------------------------------------------
    def fail(self, msg):
        raise Violation(msg)

    def check(self, cond, msg):
        if not cond:
            raise Violation(msg() if callable(msg) else msg)

    def equal(self, a, b, what):
        if not a == b:
            raise Violation(f'{what}: got {a!r}, expected {b!r}')

    def shape(self, a, shape, what):
        if tuple(a.shape) != tuple(shape):
            raise Violation(f'{what}: shape {tuple(a.shape)}, expected {tuple(shape)}')

    def same(self, a, b, what):
        """Bitwise equal arrays (NaN == NaN)."""
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f'{what}: shape {a.shape}, expected {b.shape}')
        if a.dtype.kind in 'fc' or b.dtype.kind in 'fc':
            ok = np.array_equal(a, b, equal_nan=True)
        else:
            ok = np.array_equal(a, b)
        if not ok:
            raise Violation(f'{what}: arrays differ {_diff(a, b)}')

    def close(self, a, b, what, rtol=1e-7, atol=0.0, scale=None):
        """|a-b| <= atol + rtol*scale, where scale defaults to the largest magnitude of ``b``."""
        import numpy as np

        a, b = np.asarray(a), np.asarray(b)
        if a.shape != b.shape:
            raise Violation(f'{what}: shape {a.shape}, expected {b.shape}')
        if a.size == 0:
            return
        if scale is None:
            fin = np.abs(b[np.isfinite(b)]) if b.dtype.kind in 'fc' else np.abs(b)
            scale = float(fin.max()) if fin.size else 0.0
        tol = atol + rtol * scale
        bad = ~(np.abs(a - b) <= tol)
        nan = np.isnan(a) & np.isnan(b) if (a.dtype.kind in 'fc' and b.dtype.kind in 'fc') else np.zeros(a.shape, bool)
        inf = (a == b)
        bad &= ~nan & ~inf
        if bad.any():
            raise Violation(f'{what}: tol {tol:g} exceeded {_diff(a, b, bad)}')


def _diff(a, b, bad=None):
    import numpy as np

    if bad is None:
        with np.errstate(invalid='ignore'):
            bad = ~((a == b) | ((a != a) & (b != b)))
    idx = np.argwhere(bad)
    i = tuple(int(v) for v in idx[0]) if idx.size else ()
    return f'at {i} (and {len(idx) - 1} more of {a.size}): got {a[i]!r}, expected {b[i]!r}'


# ---------------------------------------------------------------------------------------------
REPO = os.environ.get('VERIF_REPO', '/repo')


def involves_repo(exc):
    tb = exc.__traceback__
    pre = os.path.join(REPO, 'acoular') + os.sep
    while tb is not None:
        if tb.tb_frame.f_code.co_filename.startswith(pre):
            return True
        tb = tb.tb_next
    return False


def short_tb(exc):
    lines = traceback.format_exception_only(type(exc), exc)
    frames = [f'{os.path.basename(f.filename)}:{f.lineno}:{f.name}' for f in traceback.extract_tb(exc.__traceback__)]
    return (''.join(lines).strip() + ' [' + ' < '.join(reversed(frames[-6:])) + ']')[:1500]


@contextlib.contextmanager
def pristine(ctx, workdir):
    """Every case starts from the same global state and leaves none behind."""
    import warnings

    import acoular as ac
    import numpy as np

    # a private, empty cache and data directory per case, created lazily by the cases that need it
    st = np.random.get_state()
    cwd = os.getcwd()
    olderr = np.geterr()
    ac.config.global_caching = 'none'
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        np.seterr(all='ignore')
        try:
            yield
        finally:
            np.seterr(**olderr)
            os.chdir(cwd)
            np.random.set_state(st)
            ac.config.global_caching = 'none'
            close_h5()
            ctx.cleanup()


def close_h5():
    """Close whatever cache files a case has left open (they live in the case's scratch dir)."""
    try:
        import tables

        tables.file._open_files.close_all()
    except Exception:  # noqa: BLE001
        pass
    try:
        import acoular.h5cache as hc

        hc.H5cache.busy = False
        cnt = hc.H5cache.open_file_reference
        for f in list(hc.H5cache.open_files.values()):
            with contextlib.suppress(Exception):
                f.close()
        with contextlib.suppress(Exception):
            cnt.clear()
        with contextlib.suppress(Exception):
            hc.H5cache.open_files.clear()
    except Exception:  # noqa: BLE001
        pass


def run_case(sub, case, scratch):
    """Returns (status, message, ctx) with status in ok / violation / harness / discard."""
    ctx = Ctx(scratch)
    try:
        with pristine(ctx, scratch):
            sub.fn(json.loads(json.dumps(case)), ctx)
        return 'ok', '', ctx
    except Discard:
        return 'discard', '', ctx
    except Violation as e:
        return 'violation', str(e)[:1500], ctx
    except HarnessError as e:
        return 'harness', short_tb(e), ctx
    except (KeyboardInterrupt, SystemExit):
        raise
    except MemoryError as e:
        return 'harness', short_tb(e), ctx
    except BaseException as e:  # noqa: BLE001
        if involves_repo(e):
            return 'violation', 'unexpected exception on valid input: ' + short_tb(e), ctx
        return 'harness', short_tb(e), ctx


class _Fail(Exception):
    pass


class _Harness(Exception):
    pass


def run_task(sub, seed, n, deadline, scratch, current_file):
    """Drive one sub-check with hypothesis. Returns a JSON-able result."""
    import hypothesis
    import hypothesis.internal.conjecture.engine as eng
    from hypothesis import HealthCheck, Phase, given, settings

    if hasattr(eng, 'MAX_SHRINKING_SECONDS'):
        eng.MAX_SHRINKING_SECONDS = 60
    res = {
        'sub': sub.name,
        'evals': 0,
        'truncated': 0,
        'discards': 0,
        'labels': {},
        'nontrivial': [],
        'samples': [],
        'distinct': 0,
        'violation': None,
        'harness': None,
        'seed': seed,
    }
    seen = set()
    nontriv = set()
    last = {}
    memo = {}
    first_fail = [None]

    def inner(case):
        now = time.time()
        if now > deadline and first_fail[0] is None:
            res['truncated'] += 1
            return
        key = hashlib.sha1(canon(case).encode()).hexdigest()[:16]
        if first_fail[0] is not None and key in memo:
            # while shrinking, do not re-evaluate what is already known
            st, msg = memo[key]
        else:
            if current_file:
                with open(current_file, 'w') as f:
                    json.dump({'sub': sub.name, 'case': case}, f)
            st, msg, ctx = run_case(sub, case, scratch)
            memo[key] = (st, msg)
            res['evals'] += 1
            if st == 'discard':
                res['discards'] += 1
            else:
                seen.add(key)
                for lab in set(ctx.labels):
                    res['labels'][lab] = res['labels'].get(lab, 0) + 1
                if ctx.nontrivial:
                    if key not in nontriv and len(res['samples']) < 2 and len(canon(case)) < 3000:
                        res['samples'].append(case)
                    nontriv.add(key)
        if st == 'violation':
            if first_fail[0] is None:
                first_fail[0] = now
            last['case'], last['msg'] = case, msg
            raise _Fail(msg)
        if st == 'harness':
            last['hcase'], last['hmsg'] = case, msg
            raise _Harness(msg)

    test = given(sub.strategy)(inner)
    test = settings(
        max_examples=n,
        database=None,
        deadline=None,
        derandomize=False,
        report_multiple_bugs=False,
        print_blob=False,
        suppress_health_check=list(HealthCheck),
        phases=(Phase.generate, Phase.shrink),
        verbosity=hypothesis.Verbosity.quiet,
    )(test)
    test = hypothesis.seed(seed)(test)
    try:
        test()
    except _Fail:
        pass
    except _Harness:
        res['harness'] = {'msg': last.get('hmsg'), 'case': last.get('hcase')}
    except hypothesis.errors.FlakyFailure:
        pass
    except hypothesis.errors.Flaky:
        pass
    except BaseException as e:  # noqa: BLE001
        if not last:
            res['harness'] = {'msg': 'hypothesis: ' + short_tb(e), 'case': None}
    if 'case' in last:
        # decide on the minimal case once more, outside hypothesis
        hits, msg = 0, last['msg']
        for _ in range(12):
            st, m, _c = run_case(sub, last['case'], scratch)
            if st == 'violation':
                hits, msg = hits + 1, m
                break
        if hits:
            res['violation'] = {'case': last['case'], 'msg': msg}
        else:
            res['labels']['UNREPRODUCED:' + last['msg'][:200]] = 1
    res['distinct'] = len(seen)
    res['nontrivial'] = sorted(nontriv)
    return res
