"""Shared machinery of the property-based checks.

A property module (props/<ID>.py) defines ``CHECKS``, a list of :class:`Check`.
Each check is (strategy, body): the strategy generates one JSON-serialisable
case, the body runs the code under test on it and raises :class:`Violation`
when the oracle disagrees.  The runner drives every check with Hypothesis,
shrinks failures, writes the smallest failing case as a replay file and
rewrites the evidence file.
"""
import contextlib
import hashlib
import io
import json
import logging
import multiprocessing
import os
import pathlib
import shutil
import sys
import tempfile
import time
import traceback
import warnings

VERIF = pathlib.Path(__file__).resolve().parent.parent
REPO = pathlib.Path(os.environ.get('VERIF_REPO', '/repo')).resolve()
SHRINK_S = 45.0


class Violation(AssertionError):
    """The code under test broke the property on this case"""


class HarnessError(Exception):
    """The check itself could not give an answer"""


class Ctx:
    """Per-case context handed to a body"""

    def __init__(self):
        self.is_nontrivial = False
        self.labels = []
        self._tmp = None

    def nontrivial(self, cond=True):
        if cond:
            self.is_nontrivial = True

    def label(self, *names):
        self.labels.extend(str(n) for n in names)

    @property
    def tmp(self):
        """scratch directory of this case (removed afterwards)"""
        if self._tmp is None:
            self._tmp = pathlib.Path(tempfile.mkdtemp(prefix='pbt-'))
        return self._tmp

    def close(self):
        if self._tmp is not None:
            shutil.rmtree(self._tmp, ignore_errors=True)
            self._tmp = None


class Check:
    """One generated-input search deciding (part of) a property

    name      short identifier, unique within the property
    strategy  callable returning a Hypothesis strategy (lazy import)
    body      body(case, ctx)
    quick     number of cases in the quick tier
    thorough  number of cases in the thorough tier
    rule      what makes a case non-trivial
    """

    def __init__(self, name, strategy, body, quick=100, thorough=None,
                 rule='', budget=240.0):
        self.name = name
        self.strategy = strategy
        self.body = body
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick*12
        self.rule = rule
        self.budget = budget


# ---------------------------------------------------------------- assertions
def fail(msg):
    raise Violation(msg)


def require(cond, msg):
    if not cond:
        raise Violation(msg() if callable(msg) else msg)


def raises(fn, *types):
    """True if fn() raises one of types (default Exception)"""
    types = types or (Exception,)
    try:
        fn()
    except types:
        return True
    return False


def _arr(x, what):
    import numpy as np
    try:
        a = np.asarray(x)
        if np.ma.isMaskedArray(x):
            a = np.ma.getdata(x)
        if a.dtype == object:
            a = a.astype(float)
        return a
    except Exception as exc:
        raise Violation(f'{what}: not an array ({type(x).__name__}: {exc})')


def close(got, want, what, rtol=1e-9, atol=0.0, equal_nan=True):
    """numeric agreement with shape check; atol is absolute"""
    import numpy as np
    if got is None:
        raise Violation(f'{what}: got None')
    g = _arr(got, what)
    w = np.asarray(want)
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape} != expected {w.shape}')
    if g.size == 0:
        return
    with np.errstate(all='ignore'):
        try:
            ok = np.isclose(g, w, rtol=rtol, atol=atol, equal_nan=equal_nan)
        except TypeError as exc:
            raise Violation(f'{what}: not comparable ({exc})')
        if not np.all(ok):
            bad = np.argwhere(~np.atleast_1d(ok))
            k = tuple(int(v) for v in bad[0])
            g1, w1 = np.atleast_1d(g)[k], np.atleast_1d(w)[k]
            raise Violation(f'{what}: {len(bad)} of {g.size} values differ, '
                f'first at {k}: got {g1!r}, expected {w1!r}')


def close_scaled(got, want, what, tol=1e-9, scale=None, floor=0.0):
    """agreement relative to the largest expected magnitude"""
    import numpy as np
    w = np.asarray(want, dtype=float)
    s = float(np.max(np.abs(w))) if (w.size and scale is None) else (scale or 0.0)
    close(got, want, what, rtol=0.0, atol=max(tol*s, floor))


def same(got, want, what):
    """exact equality of arrays / scalars / strings"""
    import numpy as np
    if got is None and want is not None:
        raise Violation(f'{what}: got None, expected {want!r}')
    try:
        g, w = np.asarray(got), np.asarray(want)
    except Exception as exc:
        raise Violation(f'{what}: {exc}')
    if g.shape != w.shape:
        raise Violation(f'{what}: shape {g.shape} != expected {w.shape}')
    if g.dtype.kind in 'fc' and w.dtype.kind in 'fciu':
        eq = (g == w) | (np.isnan(g) & np.isnan(w.astype(g.dtype)))
    else:
        eq = (g == w)
    if not np.all(eq):
        raise Violation(f'{what}: got {_short(got)}, expected {_short(want)}')


def _short(x, n=160):
    s = repr(x).replace('\n', ' ')
    return s if len(s) <= n else s[:n] + '...'


# ------------------------------------------------------------- classification
def _from_repo(exc):
    for fr in traceback.extract_tb(exc.__traceback__):
        f = fr.filename
        if f.startswith(str(REPO) + os.sep):
            return True
    return False


def classify(exc):
    """'violation' or 'harness' for an exception raised by a body"""
    if isinstance(exc, Violation):
        return 'violation'
    if isinstance(exc, (MemoryError, KeyboardInterrupt, HarnessError)):
        return 'harness'
    if isinstance(exc, OSError) and exc.errno in (12, 23, 24, 28):
        return 'harness'
    if _from_repo(exc):
        return 'violation'
    if type(exc).__module__.startswith('hypothesis'):
        return 'harness'
    # the result is not of its format
    if type(exc).__module__.split('.')[0] in ('yaml', 'zlib', 'zipfile', 'tarfile', 'binascii',
            'struct', 'lxml', 'shapefile'):
        return 'violation'
    # the comparison could not use the result (absent, of another type or shape)
    if isinstance(exc, (TypeError, AttributeError, LookupError, ValueError,
            ArithmeticError, StopIteration, EOFError)):
        return 'violation'
    if isinstance(exc, OSError) and not isinstance(exc, (ConnectionError,
            TimeoutError)) and (exc.errno is None or exc.errno < 0
            or exc.errno in (2, 20, 21, 22)):
        return 'violation'
    return 'harness'


def describe(exc):
    if isinstance(exc, Violation):
        return str(exc)
    tb = [f for f in traceback.extract_tb(exc.__traceback__)
        if f.filename.startswith(str(REPO) + os.sep)]
    if not tb:
        fr = [f for f in traceback.extract_tb(exc.__traceback__)
            if f.filename.startswith(str(VERIF) + os.sep)]
        line = fr[-1].line if fr else ''
        return f'result cannot be compared: {type(exc).__name__}: {exc} in {line}'
    where = ''
    if tb:
        where = f' at {pathlib.Path(tb[-1].filename).name}:{tb[-1].lineno}'
    return f'unexpected {type(exc).__name__}{where}: {exc}'


def run_body(check, case):
    """run one case; returns ctx; raises on violation"""
    import numpy as np
    ctx = Ctx()
    out = io.StringIO()
    try:
        with warnings.catch_warnings(), np.errstate(all='ignore'), \
                contextlib.redirect_stdout(out):
            warnings.simplefilter('ignore')
            check.body(case, ctx)
    finally:
        ctx.close()
    return ctx


def _seed(*parts):
    h = hashlib.sha256('/'.join(str(p) for p in parts).encode()).digest()
    return int.from_bytes(h[:6], 'big')


def _digest(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def run_check(prop, check, seed, tier, scale=1.0):
    """drive one check with Hypothesis; returns a result dictionary"""
    import hypothesis
    from hypothesis import given, settings, HealthCheck, Phase
    t0 = time.monotonic()
    n = check.quick if tier == 'quick' else check.thorough
    n = max(1, int(n*scale))
    budget = check.budget if tier == 'quick' else check.budget*3.0
    st = dict(evals=0, skipped=0, seen=set(), labels={}, samples=[],
        best=None, first_fail=None, harness=None)

    def test(case):
        case = json.loads(json.dumps(case))
        now = time.monotonic()
        if st['first_fail'] is None and now - t0 > budget:
            st['skipped'] += 1
            return
        if st['first_fail'] is not None and now - st['first_fail'] > SHRINK_S:
            return
        st['evals'] += 1
        try:
            ctx = run_body(check, case)
        except Exception as exc:
            if classify(exc) == 'harness':
                if not isinstance(exc, hypothesis.errors.HypothesisException):
                    st['harness'] = (case, traceback.format_exc())
                raise
            msg = describe(exc)
            size = len(json.dumps(case))
            if st['best'] is None or size <= st['best'][0]:
                st['best'] = (size, case, msg)
            if st['first_fail'] is None:
                st['first_fail'] = time.monotonic()
            raise Violation(msg) from None
        for lab in set(ctx.labels):
            st['labels'][lab] = st['labels'].get(lab, 0) + 1
        if ctx.is_nontrivial:
            d = _digest(case)
            if d not in st['seen']:
                st['seen'].add(d)
                if len(st['samples']) < 3:
                    st['samples'].append(_short(case, 400))

    error = None
    try:
        strat = check.strategy()
        wrapped = given(strat)(test)
        wrapped = settings(max_examples=n, deadline=None, database=None,
            derandomize=False, report_multiple_bugs=False, print_blob=False,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=[HealthCheck.too_slow,
                HealthCheck.data_too_large, HealthCheck.large_base_example,
                HealthCheck.differing_executors])(wrapped)
        wrapped = hypothesis.seed(_seed(seed, prop, check.name))(wrapped)
        wrapped()
    except BaseException as exc:
        if st['best'] is None:
            error = ''.join(traceback.format_exception(exc))
    if st['harness'] is not None and st['best'] is None:
        error = f"case {_short(st['harness'][0], 600)}\n{st['harness'][1]}"
    return dict(name=check.name, rule=check.rule, evals=st['evals'],
        skipped=st['skipped'], nontrivial=len(st['seen']),
        labels=st['labels'], samples=st['samples'],
        failure=(st['best'][1:] if st['best'] else None),
        error=error, wall=time.monotonic() - t0)


def _worker(conn, prop, check, seed, tier, scale):
    try:
        res = run_check(prop, check, seed, tier, scale)
    except BaseException as exc:
        res = dict(name=check.name, rule=check.rule, evals=0, skipped=0,
            nontrivial=0, labels={}, samples=[], failure=None,
            error=''.join(traceback.format_exception(exc)), wall=0.0)
    conn.send(res)
    conn.close()
    sys.stdout.flush()
    os._exit(0)


def run_all(prop, checks, seed, tier, scale=1.0, jobs=8, hard=850.0):
    """run every check of a property, in parallel forked workers"""
    mp = multiprocessing.get_context('fork')
    pending = sorted(checks, key=lambda c: -c.budget)
    running, results = [], {}
    t0 = time.monotonic()
    while pending or running:
        while pending and len(running) < jobs:
            chk = pending.pop(0)
            rx, tx = mp.Pipe(duplex=False)
            p = mp.Process(target=_worker,
                args=(tx, prop, chk, seed, tier, scale))
            p.start()
            tx.close()
            running.append((chk, p, rx))
        done = False
        for item in list(running):
            chk, p, rx = item
            if rx.poll(0.02):
                try:
                    results[chk.name] = rx.recv()
                except EOFError:
                    results[chk.name] = None
                p.join()
                running.remove(item)
                done = True
        limit = hard if tier == 'quick' else hard*4
        if not done and time.monotonic() - t0 > limit:
            for chk, p, rx in running:
                p.kill()
                p.join()
                results[chk.name] = None
            running, pending = [], []
    for c in checks:
        if results.get(c.name) is None:
            results[c.name] = dict(name=c.name, rule=c.rule, evals=0,
                skipped=0, nontrivial=0, labels={}, samples=[], failure=None,
                error='worker died or ran out of time', wall=0.0)
    return [results[c.name] for c in checks]


# ------------------------------------------------------------ known findings
def known_findings(prop):
    """open findings of a property: list of (check, case-or-None, text)"""
    path = VERIF / 'known_findings.jsonl'
    out = []
    if path.exists():
        for line in path.read_text(encoding='utf8').splitlines():
            line = line.strip()
            if not line.startswith('{'):
                continue
            d = json.loads(line)
            if d.get('property') == prop and d.get('status') == 'open':
                out.append(d)
    return out


def main_property(prop, module, seed, tier, scale=1.0, only=None, jobs=8):
    t0 = time.monotonic()
    checks = [c for c in module.CHECKS if (only is None or c.name in only)]
    results = run_all(prop, checks, seed, tier, scale=scale, jobs=jobs)
    # confirmed, unrepaired defects: replayed on their recorded input
    notes = []
    by_name = {c.name: c for c in module.CHECKS + getattr(module, 'PROBES', [])}
    for d in known_findings(prop):
        chk = by_name.get(d['check'])
        if chk is None:
            continue
        try:
            run_body(chk, d['case'])
        except Exception as exc:
            if classify(exc) == 'harness':
                raise
            notes.append(f"KNOWN-FINDING: property={prop} {d['what']}")
    for line in notes:
        print(line)
    status = 0
    lines = []
    for r in results:
        if r['failure'] is not None:
            case, msg = r['failure']
            (VERIF / 'replays').mkdir(exist_ok=True)
            rp = VERIF / 'replays' / f"{prop}-{r['name']}-{_digest(case)[:10]}.json"
            rp.write_text(json.dumps(dict(property=prop, check=r['name'],
                case=case, message=msg), indent=1), encoding='utf8')
            lines.append(f"VIOLATION property={prop} replay={rp}")
            print(f"  {r['name']}: {msg}")
            status = 1
    errors = [r for r in results if r['error']]
    for r in errors:
        sys.stderr.write(f"[{prop}/{r['name']}] harness error:\n{r['error']}\n")
    evals = sum(r['evals'] for r in results)
    nontriv = sum(r['nontrivial'] for r in results)
    evidence = dict(property=prop, tier=tier, seed=seed, level='exploration',
        coverage=dict(evaluations=evals, distinct_nontrivial=nontriv,
            rule='; '.join(f"{r['name']}: {r['rule']}" for r in results),
            samples=[f"{r['name']}: {s}" for r in results
                for s in r['samples'][:2]],
            checks=[dict(name=r['name'], evaluations=r['evals'],
                not_run_for_time=r['skipped'], distinct_nontrivial=r['nontrivial'],
                labels=r['labels'], wall_s=round(r['wall'], 2))
                for r in results],
            known_findings=notes),
        assumptions=getattr(module, 'ASSUMPTIONS', []),
        wall_s=round(time.monotonic() - t0, 2),
        violations=len(lines))
    if only is None:
        (VERIF / 'evidence').mkdir(exist_ok=True)
        (VERIF / 'evidence' / f'{prop}.json').write_text(
            json.dumps(evidence, indent=1, default=str), encoding='utf8')
    for r in results:
        print(f"  {prop}/{r['name']}: {r['evals']} cases, "
            f"{r['nontrivial']} distinct non-trivial, {r['wall']:.1f} s"
            + (f", {r['skipped']} not run (time)" if r['skipped'] else ''))
        if not r['failure'] and not r['error'] and r['evals'] and \
                r['nontrivial'] == 0:
            sys.stderr.write(f"[{prop}/{r['name']}] vacuous: no non-trivial case\n")
            errors.append(r)
    for line in lines:
        print(line)
    if status == 0 and errors:
        status = 2
    if status == 0:
        print(f'{prop}: held on {evals} cases ({nontriv} distinct non-trivial)')
    sys.stdout.flush()
    return status
