"""Shared machinery: families of generated cases, oracles, shrinking, replay, evidence."""
import copy
import errno
import hashlib
import json
import math
import os
import shutil
import sys
import tempfile
import time
import traceback

from vlib.boot import ensure_hypothesis, setup_paths

HERE, REPO = setup_paths()
ensure_hypothesis()

import numpy as np  # noqa: E402
from hypothesis import HealthCheck, Phase, assume, given, seed as hseed, settings  # noqa: E402,F401
from hypothesis import strategies as st  # noqa: E402,F401
from hypothesis.errors import UnsatisfiedAssumption  # noqa: E402


class Violation(Exception):
    """The property is broken on this case."""


class Skip(Exception):
    """The case is outside the domain (counted, never a violation)."""


_SPEC = None
# SPECULA reads its global precision when its modules are imported, so it is a property of the process:
# families registered for both precisions run in two processes.
PREC = int(os.environ.get('VERIF_PREC', '1'))
DT = np.float32 if PREC == 1 else np.float64
CDT = np.complex64 if PREC == 1 else np.complex128
EPS = 1.2e-7 if PREC == 1 else 2.3e-16


def specula_init():
    """Import SPECULA on the CPU, single precision by default."""
    global _SPEC
    if _SPEC is None:
        import specula
        specula.init(-1, precision=PREC)
        where = os.path.dirname(os.path.abspath(specula.__file__))
        if os.path.dirname(where) != os.path.abspath(REPO):
            raise RuntimeError(f'specula imported from {where}, not from {REPO}')
        _SPEC = specula
    return _SPEC


# ----------------------------------------------------------------- oracle helpers
def fail(msg, *a):
    try:
        text = msg % a if a else msg
    except TypeError:
        text = ' '.join([msg] + [str(x) for x in a])
    raise Violation(text)


def check(cond, msg, *a):
    if not bool(cond):
        fail(msg, *a)


def arr(x):
    if x is None:
        fail('expected an array, got None')
    try:
        return np.asarray(x)
    except Exception as e:
        fail(f'expected an array, got {type(x)} ({e})')


def close(got, want, rtol=1e-5, atol=0.0, what='value', scale=None):
    """got == want within rtol*max|want| (or scale) + atol. Shapes must agree, NaN pattern must agree."""
    g, w = arr(got), arr(want)
    if g.shape != w.shape:
        fail(f'{what}: shape {g.shape}, expected {w.shape}')
    if g.size == 0:
        return
    if g.dtype == object or w.dtype == object:
        fail(f'{what}: object array')
    g = g.astype(complex) if np.iscomplexobj(g) or np.iscomplexobj(w) else g.astype(float)
    w = w.astype(g.dtype)
    gn, wn = np.isnan(g), np.isnan(w)
    if not np.array_equal(gn, wn):
        fail(f'{what}: NaN pattern differs ({int(gn.sum())} NaN, expected {int(wn.sum())})')
    gi, wi = np.isinf(g), np.isinf(w)
    if not np.array_equal(gi, wi) or not np.array_equal(g[gi], w[wi]):
        fail(f'{what}: infinities differ')
    ok = ~(wn | wi)
    if not ok.any():
        return
    s = float(np.max(np.abs(w[ok]))) if scale is None else float(scale)
    tol = rtol * s + atol
    g, w, ok = np.atleast_1d(g), np.atleast_1d(w), np.atleast_1d(ok)
    d = np.abs(g - w)
    d[~ok] = 0
    if float(d.max()) > tol:
        i = np.unravel_index(int(np.argmax(d)), d.shape)
        fail(f'{what}: got {g[i]!r} expected {w[i]!r} at {tuple(int(k) for k in i)} '
             f'(|diff|={float(d.max()):.6g} > tol {tol:.3g}; max|expected|={s:.6g})')


def same(got, want, what='value'):
    """Exact equality of arrays (shape, values; NaN == NaN)."""
    g, w = arr(got), arr(want)
    if g.shape != w.shape:
        fail(f'{what}: shape {g.shape}, expected {w.shape}')
    try:
        eq = np.array_equal(g, w, equal_nan=True)
    except TypeError:
        eq = np.array_equal(g, w)
    if not eq:
        bad = np.argwhere(~((g == w) | ((g != g) & (w != w))))
        i = tuple(int(k) for k in bad[0]) if len(bad) else ()
        fail(f'{what}: {len(bad)} element(s) differ; first at {i}: {g[i]!r} expected {w[i]!r}')


def raises(fn, what, exc=Exception):
    try:
        fn()
    except exc:
        return
    except SystemExit:
        return
    fail(f'{what}: accepted, expected to be refused')


def rng_of(n):
    """Array contents are a pure function of an integer drawn by Hypothesis."""
    return np.random.default_rng(int(n))


class Scratch:
    """A scratch directory created and removed by the case."""
    def __enter__(self):
        self.d = tempfile.mkdtemp(prefix='vf_', dir=os.environ.get('VERIF_SCRATCH'))
        return self.d

    def __exit__(self, *a):
        shutil.rmtree(self.d, ignore_errors=True)


def equal_attr(a, b, what, rtol=2e-12):
    """Structural equality of attribute values (None == '' for tags)."""
    if a is None or (isinstance(a, str) and a == ''):
        check(b is None or (isinstance(b, str) and b == ''), f'{what}: {b!r}, expected {a!r}')
        return
    if isinstance(a, (str, bool, type)):
        check(a == b, f'{what}: {b!r}, expected {a!r}')
        return
    if b is None:
        fail(f'{what}: lost (None), expected {a!r}')
    ga, gb = np.asarray(a), np.asarray(b)
    check(gb.dtype.kind not in 'OUS', f'{what}: {b!r}, expected {a!r}')
    if ga.dtype.kind == 'f' and ga.size <= 4:
        # numbers kept in a FITS header have at least 12 significant digits (20 characters)
        tol = EPS if ga.dtype.itemsize == 4 or gb.dtype.itemsize == 4 else rtol
        check(ga.shape == gb.shape, f'{what}: {b!r}, expected {a!r}')
        x, y = ga.astype(float).ravel(), gb.astype(float).ravel()
        ok = (x == y) | (np.abs(x - y) <= tol * np.abs(x)) | (np.isnan(x) & np.isnan(y))
        check(ok.all(), f'{what}: {b!r}, expected {a!r}')
    else:
        same(gb, ga, what)


# ----------------------------------------------------------------- known findings
def listed(ident):
    """Whether a genuine defect is recorded (not repaired) in the committed list."""
    try:
        with open(os.path.join(HERE, 'known_findings.json')) as fh:
            return any(e.get('id') == ident for e in json.load(fh)['findings'])
    except OSError:
        return False


# ----------------------------------------------------------------- families
_eff = os.path.join(HERE, 'vlib', 'effort.json')     # family: [factor on the quick cases, processes, seconds]
EFFORT = json.load(open(_eff)) if os.path.exists(_eff) else {}


class Family:
    def __init__(self, name, fn, strategy, quick, thorough, rule, prec=1):
        self.name, self.fn, self.strategy = name, fn, strategy
        self.quick, self.thorough, self.rule, self.prec = quick, thorough, rule, prec
        self.shards, self.cost, self.shard, self.tag = 1, 0, 0, name    # run as so many processes; seconds it took

    def split(self):
        """The parts of the cases, one per process, each with its own seed."""
        parts = [copy.copy(self) for _ in range(self.shards)]
        for k, f in enumerate(parts):
            f.shard, f.tag = k, f'{self.name}.{k}' if k else self.name
        return parts


class Check:
    """All the families deciding one property."""
    def __init__(self, pid, title, assumptions=(), level='exploration', scale=1):
        self.pid, self.title, self.level, self.scale = pid, title, level, scale   # scale: of the quick case counts
        self.assumptions = list(assumptions)
        self.families = []

    def finding(self, fn):
        """A case replayed only because known_findings.json lists it."""
        self.families.append(Family(fn.__name__, fn, st.just({}), 0, 0, 'replays a known finding'))
        return fn

    def family(self, strategy, quick, thorough=None, rule='', name=None, double=0.0):
        """double: share of the cases to run in double precision as well (a second family)."""
        def deco(fn):
            n = name or fn.__name__
            t = thorough or quick * 15
            q = int(quick * self.scale)
            made = [Family(n, fn, strategy, q, max(t, q), rule)]
            if double:
                made.append(Family(n + '_double', fn, strategy, max(1, int(q * double)),
                                   max(1, int(t * double)), rule + ' (double precision)', prec=0))
            for f in made:
                factor, f.shards, f.cost = EFFORT.get(f'{self.pid}.{f.name}', (1, 1, 0))
                f.quick = int(f.quick * factor)
                f.thorough = max(f.thorough, f.quick)
            self.families += made
            return fn
        return deco


# ----------------------------------------------------------------- execution of one case
def _origin(tb):
    """'repo' | 'verif': which side the exception belongs to (innermost frame of either)."""
    where = 'verif'
    for fr, _ in traceback.walk_tb(tb):
        f = os.path.abspath(fr.f_code.co_filename)
        if f.startswith(os.path.join(REPO, 'specula') + os.sep):
            where = 'repo'
        elif f.startswith(HERE + os.sep):
            where = 'verif'
    return where


def run_case(fam, case):
    """Returns the label(s) of the case, or raises Violation. Failures of the sandbox propagate as they are."""
    try:
        return fam.fn(case)
    except (Violation, Skip, UnsatisfiedAssumption):
        raise
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        if type(e).__module__.startswith('hypothesis'):
            raise
        if _origin(e.__traceback__) == 'repo':
            last = traceback.extract_tb(e.__traceback__)[-1]
            raise Violation(f'valid input crashed the code: {type(e).__name__}: {e} '
                            f'[{os.path.basename(last.filename)}:{last.name}]') from e
        if isinstance(e, ImportError) or isinstance(e, OSError) and e.errno in (errno.ENOSPC, errno.EMFILE, errno.ENOMEM):
            raise          # the sandbox, not the code
        last = traceback.extract_tb(e.__traceback__)[-1]
        # something the code should have produced is missing or malformed (a file, an entry, a shape)
        raise Violation(f'the result is not what the check can read: {type(e).__name__}: {e} '
                        f'[{os.path.basename(last.filename)}:{last.lineno}]') from e


def jsonable(x):
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (list, tuple)):
        return [jsonable(v) for v in x]
    if isinstance(x, (np.integer,)):
        return int(x)
    if isinstance(x, (np.floating,)):
        return float(x)
    if isinstance(x, np.ndarray):
        return jsonable(x.tolist())
    return x


def digest(fam, case):
    s = fam.name + json.dumps(case, sort_keys=True, default=str)
    return hashlib.sha1(s.encode()).hexdigest()[:16]


def run_family(fam, seed, tier):
    """Drive one family. Returns a JSON-able report."""
    n = fam.thorough if tier == 'thorough' else fam.quick
    scale = float(os.environ.get('VERIF_SCALE', '1'))
    n = max(1, -(-int(n * scale) // fam.shards))
    seed += 7919 * fam.shard
    rep = {'family': fam.name, 'rule': fam.rule, 'evaluations': 0, 'skipped': 0, 'labels': {},
           'nontrivial': [], 'samples': [], 'violation': None, 'error': None}
    seen = set()
    state = {'last': None}
    t0 = time.time()

    @hseed(seed)
    @settings(max_examples=n, database=None, deadline=None, print_blob=False,
              report_multiple_bugs=False, derandomize=False,
              suppress_health_check=list(HealthCheck), phases=(Phase.generate, Phase.shrink))
    @given(fam.strategy)
    def drive(case):
        case = jsonable(case)
        rep['evaluations'] += 1
        try:
            lab = run_case(fam, case)
        except Skip:
            rep['skipped'] += 1
            return
        except Violation as v:
            state['last'] = (case, str(v))
            note = os.environ.get('VERIF_NOTE')
            if note:       # lets the parent stop a shrink that takes too long
                with open(note + '.tmp', 'w') as fh:
                    json.dump({'case': case, 'message': str(v)}, fh, default=str)
                os.replace(note + '.tmp', note)
                if not os.path.exists(note + '.first'):
                    open(note + '.first', 'w').close()
            raise
        nontrivial = lab is None or lab is True or (lab is not False and lab != 'trivial')
        labs = [] if lab in (None, True, False) else ([lab] if isinstance(lab, str) else list(lab))
        for x in labs:
            rep['labels'][x] = rep['labels'].get(x, 0) + 1
        if nontrivial:
            d = digest(fam, case)
            if d not in seen:
                seen.add(d)
                if len(rep['samples']) < 3 and (len(seen) in (1, 7, 25)):
                    rep['samples'].append(case)

    try:
        drive()
    except Violation as v:
        case, msg = state['last']
        rep['violation'] = {'case': case, 'message': msg}
    except BaseException as e:
        if state['last'] is not None and type(e).__module__.startswith('hypothesis'):
            # e.g. Flaky: a violation was observed but depends on earlier cases in the process
            case, msg = state['last']
            rep['violation'] = {'case': case, 'message': msg + f' [{type(e).__name__}: depends on '
                                'what ran before in the same process]'}
        else:
            rep['error'] = ''.join(traceback.format_exception(type(e), e, e.__traceback__))[-6000:]
    rep['nontrivial'] = len(seen)
    rep['digests'] = sorted(seen)
    rep['wall_s'] = round(time.time() - t0, 2)
    return rep
