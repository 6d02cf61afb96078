"""The same contracts evaluated on the real, uninstrumented code with machine numbers."""
import contextlib
import copy
import math
import signal
import threading
import random
import sys
import traceback
import zlib

import numpy as np


class Skip(BaseException):
    pass


class Violation(BaseException):
    pass


class HarnessError(Exception):
    pass


class Hang(BaseException):
    """one evaluation did not end"""


HANG = 150      # seconds; evaluations of the unchanged code take a few seconds at most


def _alarm(signum, frame):
    raise Hang('no result after %d s' % HANG)


class ConcMath(object):
    symbolic = False
    pi = math.pi

    def _w(f):
        return lambda self, *x: f(*x)
    sin, cos, tan, exp = _w(np.sin), _w(np.cos), _w(np.tan), _w(np.exp)
    floor, atan, atan2, abs = _w(np.floor), _w(np.arctan), _w(np.arctan2), _w(np.abs)

    def log(self, x):
        with np.errstate(all='ignore'):
            return np.log(x)

    def sqrt(self, x):
        with np.errstate(all='ignore'):
            return np.sqrt(x)

    def rpow(self, x, p, q=1):
        return float(x) ** (p / q)

    def ite(self, c, a, b):
        return a if c else b

    def and_(self, *c):
        return all(bool(x) for x in c)

    def or_(self, *c):
        return any(bool(x) for x in c)

    def not_(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    # comparisons used in obligations allow for rounding
    def le(self, a, b):
        return a <= b + 1e-9 * (1 + abs(a) + abs(b))

    def lt(self, a, b):
        return a < b + 1e-9 * (1 + abs(a) + abs(b))

    def eq(self, a, b, tol=None):
        return close(a, b, tol or 1e-7)

    def total(self, n, f):
        return math.fsum(float(f(i)) for i in range(n)) if n else 0.0

    def count(self, n, f):
        return sum(1 for i in range(n) if f(i))

    def forall(self, n, f):
        return all(bool(f(i)) for i in range(n))

    def is_int(self, x):
        return abs(x - round(float(x))) < 1e-6 * (1 + abs(x) * 1e-6)

    def round(self, x, nd=0):
        return np.round(x, nd)

    def isneginf(self, x):
        return x == -math.inf


def close(a, b, tol=1e-7, scale=None):
    a, b = float(a), float(b)
    if math.isnan(a) or math.isnan(b):
        return math.isnan(a) and math.isnan(b)
    if math.isinf(a) or math.isinf(b):
        return a == b
    return abs(a - b) <= tol * (max(abs(a), abs(b), 1e-9 if scale is None else scale)) + 1e-12 + \
        (0 if scale is None else 0) + tol * 1e-2


def short(x):
    if isinstance(x, np.ndarray):
        return [short(v) for v in x.ravel()[:30].tolist()]
    if isinstance(x, (np.floating, np.integer)):
        return x.item()
    if isinstance(x, (list, tuple)):
        return [short(v) for v in x[:30]]
    if isinstance(x, (int, float, str, bool, type(None))):
        return x
    return repr(x)[:200]


class ConcVC(object):
    symbolic = False
    bounded = True

    def __deepcopy__(self, memo):
        return self

    def __init__(self, seed, radvel, choices=None):
        self.rng = random.Random(seed)
        self.seed = seed
        self.m = ConcMath()
        self.inputs = {}
        self.fails = []
        self.proved = {}
        self.restore = []
        self.forced = choices or {}
        self.covers = set()

    # -- inputs
    def _draw(self, ge, gt, le, lt, gen, integer=False):
        lo = ge if ge is not None else gt
        hi = le if le is not None else lt
        r = self.rng
        sp = []
        if ge is not None:
            sp.append(ge)
        if le is not None:
            sp.append(le)
        if isinstance(gen, list):
            specials = [g for g in gen if not isinstance(g, tuple)]
            ranges = [g for g in gen if isinstance(g, tuple)]
        else:
            specials, ranges = [], [gen] if gen else []
        if integer and gen:
            return round(self._draw(ge, gt, le, lt, gen))
        if integer:
            a = int(lo if lo is not None else -5) + (1 if gt is not None else 0)
            b = int(hi if hi is not None else a + 10)
            return r.randint(a, b)
        if specials and (r.random() < 0.3 or len(specials) > 10):      # (a long list is a grid)
            return float(r.choice(specials))
        if sp and not specials and r.random() < 0.06:
            return float(r.choice(sp))
        if ranges:
            a, b = r.choice(ranges)
            if a > 0 and b / a > 1000:
                v = math.exp(r.uniform(math.log(a), math.log(b)))
            else:
                v = r.uniform(a, b)
        elif lo is not None and hi is not None:
            v = r.uniform(lo, hi)
        elif lo is not None:
            v = lo + math.exp(r.uniform(-3, 4))
        elif hi is not None:
            v = hi - math.exp(r.uniform(-3, 4))
        else:
            v = r.choice([r.uniform(-1, 1), r.uniform(-10, 10), r.uniform(-1000, 1000)])
        return v

    def real(self, name, ge=None, gt=None, le=None, lt=None, gen=None, np=False, ne=None, integer=False):
        ge, gt, le, lt = [None if b is None else float(b) for b in (ge, gt, le, lt)]
        for _ in range(100):
            v = self._draw(ge, gt, le, lt, gen, integer)
            if (ge is None or v >= ge) and (gt is None or v > gt) and (le is None or v <= le) and \
                    (lt is None or v < lt) and (ne is None or v != ne):
                break
        else:
            raise HarnessError('no value for ' + name)
        self.inputs[name] = v
        if np:
            import numpy
            v = numpy.float64(v)
        return v

    def flag(self, name):
        return self.choice(name, [False, True])

    def choice(self, name, options):
        options = list(options)
        k = self.rng.randrange(len(options))
        self.inputs['choice ' + name] = short(options[k])
        return options[k]

    def size(self, name, min=0, sizes=None):
        n = self.rng.choice([s for s in (0, 1, 2, 3, 4, 5, 7, 11, 20) + tuple(x for x in sizes or () if x > 20) if s >= min])
        self.inputs[name] = n
        return n

    def arr(self, name, n, ge=None, gt=None, le=None, lt=None, gen=None, sorted=False, integer=False):
        ge, gt, le, lt = [None if b is None else float(b) for b in (ge, gt, le, lt)]
        v = []
        for i in range(n):
            for _ in range(100):
                x = self._draw(ge, gt, le, lt, gen)
                if (gt is None or x > gt) and (lt is None or x < lt) and (ge is None or x >= ge) and (le is None or x <= le):
                    break
            v.append(x)
        if n > 1 and self.rng.random() < 0.15:
            v[self.rng.randrange(n)] = v[self.rng.randrange(n)]
        if sorted:
            v.sort()
        self.inputs[name] = v
        return np.array(v, dtype=float)

    def matrix(self, name, n, k, **kw):
        return np.array([self.arr('%s[%d]' % (name, i), k, **kw) for i in range(n)]).reshape(n, k)

    def cube(self, name, a, b, c):
        return np.array([[[self._draw(None, None, None, None, (-3., 3.)) for _ in range(c)] for _ in range(b)]
                         for _ in range(a)]).reshape(a, b, c)

    def pointwise(self, f, n):
        return np.array([f(i) for i in range(n)], dtype=float)

    def opaque(self, name, *args):
        h = random.Random(zlib.crc32(repr((name, len(args))).encode()))
        s = h.uniform(-3, 3)
        for a in args:
            if isinstance(a, str):
                s += zlib.crc32(a.encode()) % 1000 / 500.
                continue
            for i, v in enumerate(np.ravel(np.asarray(a, dtype=float))):
                if not math.isfinite(v):
                    s += h.uniform(0.2, 1.) * zlib.crc32(repr(float(v)).encode()) % 1000 / 500.
                    continue
                s += h.uniform(0.2, 1.) * math.sin(0.37 * float(v) + i + 0.1) + 0.01 * float(v)
        return np.float64(10 * math.sin(s) + s)

    def opaque_arr(self, name, args, n):
        return np.array([self.opaque(name, *(list(args) + [float(i)])) for i in range(n)], dtype=float)

    def table(self, n, k, f):
        return np.array([[f(i, j) for j in range(k)] for i in range(n)], dtype=float).reshape(n, k)

    def opaque_distance(self):
        return lambda a, b: abs(a - b)

    def at(self, k):
        pass

    def labels(self, name, n, labels):
        if n < len(labels):
            raise Skip()
        v = list(labels) + [self.rng.choice(labels) for _ in range(n - len(labels))]
        self.rng.shuffle(v)
        self.inputs[name] = v
        return np.array(v)

    def loop(self, func, spec):
        pass

    def mark(self):
        return 0

    @contextlib.contextmanager
    def forgetting(self, mark):
        yield

    def lazy_branches(self):
        pass

    def abstract_sign(self):
        pass

    def exp_rule(self, name, b):
        self.prove(name, b <= 0)

    def solve(self, A, b):
        return np.linalg.solve(A, b)

    def logdet(self, A):
        return np.linalg.slogdet(A)[1]

    def posdef(self, A):
        try:
            np.linalg.cholesky(A)
            return True
        except np.linalg.LinAlgError:
            return False

    def map(self, f, arr):
        return np.array([f(v) for v in np.asarray(arr).ravel()], dtype=float).reshape(np.shape(arr))

    def assume(self, c):
        if not bool(c):
            raise Skip()

    def split(self, c):
        return bool(c)

    def skip(self):
        raise Skip()

    def is_sym(self, x):
        return False

    def rounding(self):
        pass

    def sorted(self, arr):
        return np.sort(arr)

    def median(self, arr):
        return np.median(arr)

    def patch(self, obj, name, value):
        if isinstance(obj, dict):
            old = obj[name]
            obj[name] = value
            self.restore.append(lambda: obj.__setitem__(name, old))
            return
        had = name in obj.__dict__
        old = obj.__dict__.get(name)
        setattr(obj, name, value)
        self.restore.append((lambda: setattr(obj, name, old)) if had else (lambda: delattr(obj, name)))

    def contract(self, func, stub):
        pass

    # -- obligations
    def _res(self, name, ok, detail):
        self.proved[name] = self.proved.get(name, 0) + 1
        if not ok:
            self.fails.append((name, detail))
            raise Violation()
        return True

    def prove(self, name, cond):
        if isinstance(cond, np.ndarray):
            cond = bool(cond.all())
        return self._res(name, bool(cond), 'condition is false')

    def prove_eq(self, name, a, b, tol=None, scale=None):
        tol = tol or 1e-7
        try:
            A, B = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
        except (TypeError, ValueError):
            return self._res(name, False, 'not comparable: %r and %r' % (short(a), short(b)))
        if A.ndim == 0 and B.ndim == 0:
            return self._res(name, close(A, B, tol, scale), 'computed %r, specified %r' % (short(a), short(b)))
        if A.shape != B.shape:
            return self._res(name, False, 'computed %s, specified %s (shapes)' % (short(A), short(B)))
        sc = scale if scale is not None else (float(np.nanmax(np.abs(B[np.isfinite(B)]))) if np.isfinite(B).any() else 1.)
        for x, y in zip(A.ravel(), B.ravel()):
            if not close(x, y, tol, max(sc, 1e-9)):
                return self._res(name, False, 'computed %s, specified %s' % (short(A), short(B)))
        return self._res(name, True, '')

    def prove_same(self, name, a, b):
        return self._res(name, bool(a == b), 'computed %s, specified %s' % (short(a), short(b)))

    def raises(self, name, exc, f):
        try:
            r = f()
        except exc:
            return self._res(name, True, '')
        except Exception as e:
            return self._res(name, False, 'raised %r instead of %r' % (e, exc))
        return self._res(name, False, 'no exception, returned %r' % (short(r),))

    def same(self, a, b):
        return bool(np.all(a == b))

    def snapshot(self, x):
        return csnap(x)

    def unchanged(self, name, x, s):
        r = csnap_eq(x, s)
        return self._res(name, r, 'value was modified: now %s' % (short(x),))

    def cover(self, name):
        self.covers.add(name)

    def prove_runs(self, name, a, runs):
        want = [v for v, n in runs for _ in range(n)]
        self.prove_same(name, list(a), want)

    def len(self, a):
        return len(a)


def csnap(x):
    if isinstance(x, np.ndarray):
        return ('nd', x.copy())
    if isinstance(x, dict) and not type(x).__module__.startswith('radvel'):
        return ('dict', {k: csnap(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ('seq', [csnap(v) for v in x])
    if hasattr(x, '__dict__') and type(x).__module__.startswith('radvel'):
        return ('obj', {k: csnap(v) for k, v in vars(x).items()},
                {k: csnap(v) for k, v in x.items()} if isinstance(x, dict) else None)
    if type(x).__module__.startswith('pandas'):
        return ('pd', x.copy(deep=True))
    return ('val', x)


def csnap_eq(x, s):
    k = s[0]
    if k == 'nd':
        try:
            return isinstance(x, np.ndarray) and x.shape == s[1].shape and bool(np.all((x == s[1]) | ((x != x) & (s[1] != s[1]))))
        except TypeError:
            return False
    if k == 'dict':
        return isinstance(x, dict) and list(x.keys()) == list(s[1].keys()) and all(csnap_eq(x[q], s[1][q]) for q in s[1])
    if k == 'seq':
        return len(x) == len(s[1]) and all(csnap_eq(a, b) for a, b in zip(x, s[1]))
    if k == 'obj':
        ok = set(vars(x)) == set(s[1]) and all(csnap_eq(vars(x)[q], s[1][q]) for q in s[1])
        if s[2] is not None:
            ok = ok and list(x.keys()) == list(s[2].keys()) and all(csnap_eq(x[q], s[2][q]) for q in s[2])
        return ok
    if k == 'pd':
        return x.equals(s[1])
    try:
        r = x == s[1]
        return bool(np.all(r)) or (x != x and s[1] != s[1])
    except Exception:
        return x is s[1]


def run_one(h, seed, radvel, repo):
    """one execution; returns (status, vc, detail)"""
    vc = ConcVC(seed, radvel)
    np.random.seed(abs(hash(seed)) % 2**31 if isinstance(seed, int) else zlib.crc32(str(seed).encode()))
    try:
        if threading.current_thread() is threading.main_thread():
            signal.signal(signal.SIGALRM, _alarm)
            signal.setitimer(signal.ITIMER_REAL, HANG)
        h.f(vc)
        return 'ok', vc, None
    except Skip:
        return 'skip', vc, None
    except Violation:
        return 'fail', vc, {'obligation': vc.fails[-1][0], 'detail': vc.fails[-1][1]}
    except HarnessError as e:
        return 'error', vc, str(e)
    except (Exception, Hang) as e:
        signal.setitimer(signal.ITIMER_REAL, 0)
        tb = e.__traceback__
        inrepo = False
        while tb:
            if tb.tb_frame.f_code.co_filename.startswith(repo + '/radvel'):
                inrepo = True
            tb = tb.tb_next
        text = traceback.format_exc(limit=-6)
        if inrepo:
            return 'fail', vc, {'obligation': 'no unexpected exception', 'detail': text}
        if isinstance(e, (KeyError, IndexError, AttributeError, TypeError, ValueError, FileNotFoundError)):
            # the contract reads a part of the result that is not there, or not of its kind
            return 'fail', vc, {'obligation': 'the result has the form the contract reads', 'detail': text}
        return 'error', vc, text
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        for u in reversed(vc.restore):
            u()
