"""numpy / math / scipy contracts on symbolic values.  Concrete arguments go to the real libraries."""
import builtins
import math as rmath
from fractions import Fraction

import numpy as rnp

from . import terms as tm
from . import sym
from .sym import SReal, SBool, SArr, SRange, Unsupported, lift, ew, arr_map, sb, mkr, is_num

HALF = tm.const(Fraction(1, 2))


def is_symarr(x):
    return isinstance(x, SArr) or (isinstance(x, rnp.ndarray) and x.dtype == object and
                                   any(isinstance(v, (SReal, SBool)) for v in x.flat))


def is_sym(x, depth=0):
    if isinstance(x, (SReal, SBool, SArr, SRange, sym.SRep, sym.SLabels)):
        return True
    if isinstance(x, rnp.ndarray):
        return x.dtype == object and any(is_sym(v) for v in x.flat)
    if isinstance(x, (list, tuple)) and depth < 3:
        return any(is_sym(v, depth + 1) for v in x)
    if type(x).__name__ in ('Series', 'SymSeries'):
        return is_sym(rnp.asarray(x))
    return False


def prep(x):
    """operand -> SArr | object ndarray | scalar"""
    if isinstance(x, (SArr, SReal, SBool)):
        return x
    if isinstance(x, (list, tuple)):
        return array(x)
    if isinstance(x, rnp.ndarray):
        return x
    if type(x).__name__ == 'Series':
        return x
    return x


def unary(name, scal, real):
    def f(x, *a, **k):
        if a or k:
            if is_sym(x) or is_sym(list(a)) or is_sym(list(k.values())):
                raise Unsupported('np.%s with extra arguments' % name)
            return real(x, *a, **k)
        if isinstance(x, SBool):
            x = SReal(lift(x))
        if isinstance(x, SReal):
            return scal(x, False)
        if isinstance(x, SArr):
            return arr_map(lambda t: lift(scal(SReal(rt(t), True), True)), [x])
        if isinstance(x, (list, tuple)):
            if not is_sym(x):
                return real(x)
            return f(array(x))
        if isinstance(x, rnp.ndarray):
            if x.dtype == object:
                return ew(lambda v: v if not is_num(v) else scal(SReal(lift(v), True), False)
                          if lift(v) is not None else real(v), x)
            return real(x)
        if isinstance(x, (int, float, rnp.integer, rnp.floating)) and not isinstance(x, bool):
            t = lift(x)
            if t is not None:
                r = scal(SReal(t, True), False)
                return r
            return real(x)
        if type(x).__name__ == 'Series' and x.dtype == object:
            return x.map(lambda v: f(v))
        return real(x)
    f.__name__ = name
    return f


def rt(t):
    return tm.ite(t, tm.ONE, tm.ZERO) if tm.is_bool(t) else t


def _fn(op):
    return lambda x, inarr: SReal(tm.fn(op, x.t), True)


def _exact(op, val):
    def g(x, inarr):
        if x.t.op == 'const':
            r = val(x.t.args[0])
            if r is not None:
                return SReal(tm.const(r), True)
        return SReal(tm.fn(op, x.t), True)
    return g


def s_log(x, inarr):
    t = x.t
    if t is tm.ONE:
        return SReal(tm.ZERO, True)
    if not inarr and t.op != 'const':
        e = sym.eng()
        if not e.branch(tm.lt(tm.ZERO, t)):
            if e.branch(tm.eq(t, tm.ZERO)):
                return -rnp.inf
            return rnp.nan
    elif t.op == 'const' and t.args[0] <= 0:
        return -rnp.inf if t.args[0] == 0 else rnp.nan
    return SReal(tm.fn('log', t), True)


def s_sqrt(x, inarr):
    t = x.t
    if not inarr and t.op != 'const':
        e = sym.eng()
        if not e.branch(tm.le(tm.ZERO, t)):
            return rnp.nan
    elif t.op == 'const':
        q = t.args[0]
        if q < 0:
            return rnp.nan
        a, b = rmath.isqrt(q.numerator), rmath.isqrt(q.denominator)
        if a * a == q.numerator and b * b == q.denominator:
            return SReal(tm.const(Fraction(a, b)), True)
    return SReal(tm.power(t, HALF), True)


def s_exp(x, inarr):
    if x.t is tm.ZERO:
        return SReal(tm.ONE, True)
    return SReal(tm.fn('exp', x.t), True)


def s_log10(x, inarr):
    r = s_log(x, inarr)
    if not isinstance(r, SReal):
        return r
    return SReal(tm.div(r.t, tm.fn('log', tm.const(10))), True)


def s_abs(x, inarr):
    return SReal(tm.ite(tm.lt(x.t, tm.ZERO), tm.neg(x.t), x.t), True)


OPAQUE_SIGN = [False]


def s_sign(x, inarr):
    if OPAQUE_SIGN[0]:
        return SReal(tm.app('sign?', x.t), True)
    return SReal(tm.ite(tm.lt(tm.ZERO, x.t), tm.ONE, tm.ite(tm.lt(x.t, tm.ZERO), tm.const(-1), tm.ZERO)), True)


def s_floor(x, inarr):
    if x.t.op == 'const':
        return SReal(tm.const(rmath.floor(x.t.args[0])), True)
    return SReal(tm.fn('floor', x.t), True)


def s_ceil(x, inarr):
    return SReal(tm.neg(tm.fn('floor', tm.neg(x.t))), True)


def s_trunc(x, inarr=False):
    t = x.t
    return SReal(tm.ite(tm.lt(t, tm.ZERO), tm.neg(tm.fn('floor', tm.neg(t))), tm.fn('floor', t)), True)


def s_radians(x, inarr):
    return SReal(tm.mul(tm.div(tm.PI, tm.const(180)), x.t), True)


def s_degrees(x, inarr):
    return SReal(tm.mul(tm.div(tm.const(180), tm.PI), x.t), True)


def s_round(x, inarr):
    return SReal(tm.app('int:round', x.t), True)


def binary(name, op, real):
    def f(a, b, *r, **k):
        if r or k or not (is_sym(a) or is_sym(b)):
            return real(a, b, *r, **k)
        a, b = prep(a), prep(b)
        return op(a, b)
    return f


def pairwise(g):
    """g on two scalars (numbers) lifted to arrays"""
    def f(a, b):
        if isinstance(a, SArr) or isinstance(b, SArr):
            return arr_map(lambda x, y: lift(g(SReal(rt(x), True), SReal(rt(y), True))), [a, b])
        ser = [x for x in (a, b) if type(x).__name__ == 'Series']
        if ser:
            if len(ser) == 2 and not ser[0].index.equals(ser[1].index):
                raise Unsupported('tables with different rows')
            v = ew(g, *[x.values if type(x).__name__ == 'Series' else x for x in (a, b)])
            return type(ser[0])(v, index=ser[0].index, dtype=object)
        if isinstance(a, rnp.ndarray) and a.ndim or isinstance(b, rnp.ndarray) and b.ndim:
            return ew(g, a, b)
        if lift(a) is None or lift(b) is None:
            raise Unsupported('operands %s, %s' % (type(a).__name__, type(b).__name__))
        return g(a, b)
    return f


def p_atan2(a, b):
    x, y = lift(a), lift(b)
    return SReal(tm.fn('atan2', x, y), True)


def p_max(a, b):
    c = sym.compare('lt', a, b)
    if isinstance(c, bool):
        return b if c else a
    return SReal(tm.ite(c.t, lift(b), lift(a)), True)


def p_min(a, b):
    c = sym.compare('lt', b, a)
    if isinstance(c, bool):
        return b if c else a
    return SReal(tm.ite(c.t, lift(b), lift(a)), True)


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, (SArr, sym.SRep, sym.SLabels)):
        return x.copy()
    if isinstance(x, (SReal, SBool)):
        o = rnp.empty((), dtype=object)
        o[()] = SReal(x.t, True) if isinstance(x, SReal) else x
        return o
    if isinstance(x, rnp.ndarray) and x.dtype == object:
        return x.copy()
    if isinstance(x, (list, tuple)) and is_sym(x):
        if any(isinstance(v, SArr) for v in x):
            if len(x) == 1:
                a = x[0]
                return SArr((tm.ONE,) + a.shape_t, lambda i, *r: a.f(*r), a.kind)
            fs = [v if isinstance(v, SArr) else sym.to_arr(v) for v in x]
            if any(f is None for f in fs):
                raise Unsupported('np.array of mixed shapes')

            def f(i, *r):
                out = fs[-1].f(*r)
                for j in range(len(fs) - 2, -1, -1):
                    out = tm.ite(tm.eq(i, tm.const(j)), fs[j].f(*r), out)
                return out
            for q in fs[1:]:
                if not all(sym.same_dim(a, b) for a, b in zip(q.shape_t, fs[0].shape_t)):
                    raise Unsupported('np.array of ragged arrays')
            return SArr((tm.const(len(fs)),) + fs[0].shape_t, f, fs[0].kind)
        return rnp.array([array(v) if isinstance(v, (list, tuple, rnp.ndarray)) else v for v in x], dtype=object)
    if isinstance(x, (list, tuple)) and dtype is None and any(isinstance(v, float) and False for v in x):
        return rnp.array(x)
    return rnp.array(x, dtype=None if dtype in (float, rnp.float64) and False else dtype, **k)


def objzeros(shape, dtype=None, fill=0.0):
    if dtype not in (None, float, rnp.float64, 'float', 'float64'):
        return rnp.full(shape, fill, dtype=dtype)
    if isinstance(shape, (SReal,)):
        return SArr((shape.t,), lambda i: lift(fill))
    if isinstance(shape, tuple) and any(isinstance(s, SReal) for s in shape):
        return SArr(tuple(lift(s) for s in shape), lambda *i: lift(fill))
    a = rnp.empty(shape, dtype=object)
    a[...] = fill
    return a


class CS(object):
    """np.linalg look-alike"""


def reduce_(name, x, axis=None, **k):
    if isinstance(x, SArr):
        if name == 'sum':
            return sym.asum(x, axis)
        if name == 'mean':
            return sym.amean(x, axis)
        if name in ('var', 'std'):
            v = sym.avar(x, axis, k.get('ddof', 0))
            return v if name == 'var' else sym.ssqrt(v)
        if name in ('max', 'min'):
            return sym.aminmax(name, x, axis)
        if name == 'any':
            return sym.aany(x)
        if name == 'all':
            return sym.aall(x)
        if name == 'median':
            if axis is not None or x.ndim != 1:
                raise Unsupported('median along an axis')
            x = sym.eng().canon(x)
            return SReal(tm.app('median', x.n, sym.lam_of(x)), True)
    if isinstance(x, (list, tuple)):
        x = array(x)
    if isinstance(x, SReal):
        return x if name not in ('var', 'std') else SReal(tm.ZERO)
    if not isinstance(x, rnp.ndarray):
        x = rnp.asarray(x, dtype=object)
    if axis is None:
        v = list(x.flat)
        n = len(v)
        if name == 'sum':
            r = 0.0
            for q in v:
                r = r + (SReal(lift(q)) if isinstance(q, SBool) else q)
            return tonp(r)
        if name == 'mean':
            return tonp(reduce_('sum', x) / n) if n else rnp.nan
        if name in ('var', 'std'):
            if not n:
                return rnp.nan
            m = reduce_('mean', x)
            s = reduce_('sum', ew(lambda q: (q - m) ** 2, x)) / (n - k.get('ddof', 0))
            return s if name == 'var' else s_sqrt(s, True)
        if name in ('max', 'min'):
            if not v:
                raise ValueError('zero-size array to reduction operation')
            r = v[0]
            for q in v[1:]:
                r = (p_max if name == 'max' else p_min)(r, q)
            return r
        if name == 'any':
            return orl(v)
        if name == 'all':
            return andl(v)
        if name == 'median':
            if not v:
                return rnp.nan
            s = sort_values(v)
            return tonp(s[n // 2]) if n % 2 else tonp((s[n // 2 - 1] + s[n // 2]) / 2)
        if name == 'prod':
            r = 1.0
            for q in v:
                r = r * q
            return r
    else:
        if isinstance(axis, int):
            y = rnp.moveaxis(x, axis, -1)
            out = rnp.empty(y.shape[:-1], dtype=object)
            for i in rnp.ndindex(out.shape):
                out[i] = reduce_(name, y[i], **k)
            return out
    raise Unsupported('np.%s' % name)


def tonp(r):
    if isinstance(r, SReal):
        return SReal(r.t, True)
    if isinstance(r, float):
        return rnp.float64(r)
    return r


def _bt(v):
    if isinstance(v, SBool):
        return v.t
    if isinstance(v, SReal):
        return tm.not_(tm.eq(v.t, tm.ZERO))
    return tm.TRUE if v else tm.FALSE


def orl(v):
    return sb(tm.or_(*[_bt(q) for q in v]))


def andl(v):
    return sb(tm.and_(*[_bt(q) for q in v]))


def sort_values(v):
    """sorting network on symbolic values (ascending)"""
    v = list(v)
    n = len(v)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = v[j], v[j + 1]
            v[j], v[j + 1] = p_min(a, b), p_max(a, b)
    return v


def argsort_list(v):
    """stable argsort, branching on comparisons"""
    idx = list(range(len(v)))
    out = []
    for i in idx:
        k = len(out)
        while k > 0 and bool(v[i] < v[out[k - 1]]):
            k -= 1
        out.insert(k, i)
    return out


def reducer(name, real):
    def f(x, axis=None, **k):
        if not is_sym(x) and not (isinstance(x, rnp.ndarray) and x.dtype == object):
            return real(x, axis=axis, **k)
        k.pop('dtype', None)
        return reduce_(name, x, axis, **k)
    return f


def where(c, a=None, b=None):
    if a is None:
        if isinstance(c, SArr):
            m = c.f
            r = SArr(c.shape_t, lambda i: i, 'I', mask=m)
            return (r,)
        if isinstance(c, rnp.ndarray) and c.dtype == object:
            c = rnp.array([bool(v) for v in c.flat]).reshape(c.shape)
        return rnp.where(c)
    if isinstance(c, SArr) or isinstance(a, SArr) or isinstance(b, SArr):
        return arr_map(lambda p, q, r: tm.ite(sym.tobool(p), rt(q), rt(r)), [c, a, b])
    if is_sym(c) or is_sym(a) or is_sym(b):
        def g(p, q, r):
            if isinstance(p, SBool):
                if lift(q) is None or lift(r) is None:
                    return q if p else r
                return SReal(tm.ite(p.t, lift(q), lift(r)), True)
            return q if p else r
        if not any(isinstance(z, (rnp.ndarray, list)) for z in (c, a, b)):
            return g(c, a, b)
        return ew(g, *[array(z) if isinstance(z, list) else z for z in (c, a, b)])
    return rnp.where(c, a, b)


def pred(name, real, finite):
    def f(x, *a, **k):
        if isinstance(x, (SReal, SBool)):
            return finite
        if isinstance(x, SArr):
            return SArr(x.shape_t, lambda *i: tm.TRUE if finite else tm.FALSE, 'B', x.mask)
        if isinstance(x, rnp.ndarray) and x.dtype == object:
            o = rnp.empty(x.shape, dtype=bool)
            for i in rnp.ndindex(x.shape):
                o[i] = f(x[i])
            return o
        if isinstance(x, (list, tuple)) and is_sym(x):
            return f(array(x))
        return real(x, *a, **k)
    return f


class Poly(object):
    """numpy.poly1d with symbolic coefficients (highest power first), evaluated by Horner's rule"""
    def __init__(self, c):
        self.c = list(c)

    def __call__(self, x):
        r = x * 0
        for c in self.c:
            r = r * x + c
        return r

    def __getattr__(self, k):
        raise Unsupported('poly1d.' + k)


def append(a, b, axis=None):
    if isinstance(a, sym.SRep) or isinstance(b, sym.SRep):
        return sym.rep_of(a) + sym.rep_of(b)
    if isinstance(a, SArr) or isinstance(b, SArr):
        return concatenate([a, b])
    if is_sym(a) or is_sym(b) or getattr(a, 'dtype', None) == object:
        a, b = [rnp.atleast_1d(rnp.asarray(z, dtype=object)) if axis is None else rnp.asarray(z, dtype=object)
                for z in (a, b)]
        if axis is None:
            return rnp.concatenate([a.ravel(), b.ravel()])
        return rnp.concatenate([a, b], axis=axis)
    return rnp.append(a, b, axis)


def concatenate(xs, axis=0, **k):
    xs = list(xs)
    if any(isinstance(x, sym.SRep) for x in xs):
        out = sym.SRep([])
        for x in xs:
            out = out + x
        return out
    if any(isinstance(x, SArr) for x in xs):
        ps = []
        for x in xs:
            if isinstance(x, SArr):
                ps.append(x)
            else:
                x = rnp.atleast_1d(rnp.asarray(x, dtype=object))
                if x.size:
                    ps.append(sym.to_arr(x))
        if axis not in (0, None) or any(p.ndim != 1 for p in ps):
            raise Unsupported('concatenate of matrices')
        return sym.concat(ps) if len(ps) > 1 else ps[0].copy()
    if any(is_sym(x) or getattr(x, 'dtype', None) == object for x in xs):
        return rnp.concatenate([rnp.asarray(x, dtype=object) for x in xs], axis=axis)
    return rnp.concatenate(xs, axis=axis, **k)


def hstack(xs, **k):
    xs = list(xs)
    if any(isinstance(x, (SArr, sym.SRep)) for x in xs):
        return concatenate(xs)
    if any(is_sym(x) for x in xs):
        return rnp.hstack([rnp.asarray(x, dtype=object) for x in xs])
    return rnp.hstack(xs, **k)


def vstack(xs, **k):
    xs = list(xs)
    if any(isinstance(x, SArr) for x in xs):
        ys = []
        for x in xs:
            x = sym.to_arr(x)
            if x.ndim == 1:
                ys.append(x)
            elif x.shape_t[0] is tm.ONE:
                ys.append(SArr(x.shape_t[1:], lambda i, f=x.f: f(tm.ZERO, i)))
            else:
                raise Unsupported('vstack of matrices')
        return array(ys)
    if any(is_sym(x) for x in xs):
        return rnp.vstack([rnp.asarray(x, dtype=object) for x in xs])
    return rnp.vstack(xs, **k)


def stacked(name, real, g):
    def f(xs, *r, **k):
        if isinstance(xs, SArr):
            return g(xs, *r, **k)
        if isinstance(xs, rnp.ndarray) and xs.dtype != object:
            return real(xs, *r, **k)
        if isinstance(xs, (list, tuple)):
            if any(isinstance(x, SArr) for x in xs):
                return g(xs, *r, **k)
            if any(is_sym(x) for x in xs):
                xs = [rnp.asarray(x, dtype=object) for x in xs]
        return real(xs, *r, **k)
    return f


def dot(a, b, **k):
    if isinstance(a, SArr) or isinstance(b, SArr):
        return sym.adot(a, b)
    if is_sym(a) or is_sym(b):
        a, b = rnp.asarray(a, dtype=object), rnp.asarray(b, dtype=object)
        return rnp.dot(a, b)
    return rnp.dot(a, b, **k)


def identity(n, *a, **k):
    if isinstance(n, SReal):
        return SArr((n.t, n.t), lambda i, j: tm.ite(tm.eq(i, j), tm.ONE, tm.ZERO))
    return rnp.identity(n, *a, **k).astype(object)


def diag(x, k=0):
    if isinstance(x, SArr):
        if k:
            raise Unsupported('off diagonal')
        if x.ndim == 1:
            f = x.f
            return SArr((x.n, x.n), lambda i, j: tm.ite(tm.eq(i, j), f(i), tm.ZERO))
        f = x.f
        if not sym.same_dim(*x.shape_t):
            raise Unsupported('diagonal of a non-square matrix')
        return SArr((x.n,), lambda i: f(i, i))
    if isinstance(x, rnp.ndarray) and x.dtype == object:
        return rnp.diag(x, k).copy()
    return rnp.diag(x, k)


def clip(x, lo, hi, **k):
    if is_sym(x) or is_sym(lo) or is_sym(hi):
        r = x
        if lo is not None:
            r = pairwise(p_max)(prep(r), lo)
        if hi is not None:
            r = pairwise(p_min)(r, hi)
        return r
    return rnp.clip(x, lo, hi, **k)


def np_round(x, decimals=0, **k):
    if isinstance(x, SReal) and not sym.eng().rounding:
        return SReal(tm.app('round', x.t, lift(decimals)), True)     # some function of the value
    if isinstance(x, SReal):
        # contract of round: the nearest multiple of 10^-decimals
        d = lift(decimals)
        unit = tm.const(Fraction(10) ** int(d.args[0])) if d.op == 'const' else tm.fn('exp', tm.mul(d, tm.fn('log', tm.const(10))))
        y = tm.mul(x.t, unit)
        r = tm.app('int:round', y)
        h = tm.const(Fraction(1, 2))
        sym.eng().assume(tm.and_(tm.le(tm.sub(y, h), r), tm.le(r, tm.add(y, h))))
        return SReal(tm.div(r, unit), True)
    if is_sym(x):
        return ew(lambda v: np_round(v, decimals), array(x))
    if is_sym(decimals):
        raise Unsupported('symbolic decimals')
    return rnp.round(x, decimals, **k)


def arange(*a, **k):
    if any(isinstance(x, SReal) and x.t.op != 'const' for x in a):
        if len(a) == 1:
            return SArr((a[0].t,), lambda i: i)
        if len(a) == 2:
            s = lift(a[0])
            return SArr((tm.sub(lift(a[1]), s),), lambda i: tm.add(s, i))
        raise Unsupported('arange with symbolic step')
    return rnp.arange(*[float(x) if isinstance(x, SReal) else x for x in a], **k)


class HistCount(object):
    """the occupation numbers of a histogram; only their largest is asked for"""
    def __init__(self, x):
        self.x = x


class HistMode(object):
    pass


class HistEdges(object):
    def __init__(self, x, bins):
        self.x, self.bins = x, bins

    def __getitem__(self, k):
        if isinstance(k, HistMode):
            sym.eng().note('numpy.histogram: the mode is some number')
            return SReal(tm.app('histmode', self.x.n, sym.lam_of(self.x)), True)
        raise Unsupported('edges of a symbolic histogram')


def histogram(x, bins=10, **k):
    if isinstance(x, SArr):
        return HistCount(x), HistEdges(x, bins)
    if is_sym(x):
        raise Unsupported('histogram of symbolic values')
    return rnp.histogram(x, bins=bins, **k)


def argsort(x, *a, **k):
    if isinstance(x, SArr):
        return SymPerm(x)
    if is_sym(x):
        return rnp.array(argsort_list(list(rnp.asarray(x, dtype=object))), dtype=int)
    return rnp.argsort(x, *a, **k)


def SymPerm(x):
    # contract: an arbitrary permutation that sorts x (values in range)
    p = tm.app
    key = sym.lam_of(x)
    n = x.n
    p = SArr((n,), lambda i: tm.app('int:argsort', key, i), 'R')
    sym.eng().perms.append((SArr(x.shape_t, x.f, x.kind), p))
    return p


def sort(x, *a, **k):
    if isinstance(x, SArr):
        raise Unsupported('sort of an array of symbolic length')
    if is_sym(x):
        return rnp.array(sort_values(list(rnp.asarray(x, dtype=object))), dtype=object)
    return rnp.sort(x, *a, **k)


def isclose(a, b, *r, **k):
    if is_sym(a) or is_sym(b):
        raise Unsupported('isclose')
    return rnp.isclose(a, b, *r, **k)


def full(shape, v, dtype=None, **k):
    if dtype not in (None, float):
        return rnp.full(shape, v, dtype=dtype)
    return objzeros(shape, None, v)


def like(fill):
    def f(x, *a, **k):
        if isinstance(x, SArr):
            return SArr(x.shape_t, lambda *i: lift(fill), 'R', x.mask)
        x = rnp.asarray(x)
        return objzeros(x.shape, None, fill)
    return f


def size(x, *a):
    if isinstance(x, (SArr, SReal)):
        return x.size
    return rnp.size(x, *a)


def outer(a, b):
    if isinstance(a, SArr) or isinstance(b, SArr):
        a, b = sym.to_arr(a), sym.to_arr(b)
        f, g = a.f, b.f
        return SArr((a.n, b.n), lambda i, j: tm.mul(f(i), g(j)))
    return rnp.outer(a, b)


def slogdet(a):
    s = sym.to_arr(a)
    if isinstance(a, SArr) or is_sym(a):
        L = [rt(x) for x in key_of(s)]
        return (SReal(tm.app('slogdet:sign', s.n, *L), True), SReal(tm.app('slogdet', s.n, *L), True))
    return rnp.linalg.slogdet(a)


def interp(x, xp=None, fp=None, **k):
    if is_sym(x) or is_sym(xp) or is_sym(fp):
        # contract: linear between the knots (increasing), constant outside
        if k or isinstance(x, (SArr, rnp.ndarray, list, tuple)) or isinstance(xp, SArr) or isinstance(fp, SArr) or len(xp) != len(fp):
            raise Unsupported('interp')
        n = len(xp)
        for i in range(n - 1, -1, -1):
            if x >= xp[i]:
                break
        else:
            return fp[0]
        return fp[n - 1] if i == n - 1 else fp[i] + (x - xp[i]) * (fp[i + 1] - fp[i]) / (xp[i + 1] - xp[i])
    return rnp.interp(x, xp, fp, **k)


def cumsum(x, *a, **k):
    if is_sym(x):
        if a or k or isinstance(x, SArr):
            raise Unsupported('cumsum')
        out, tot = rnp.empty(len(x), dtype=object), 0
        for i in range(len(x)):
            tot = tot + x[i]
            out[i] = tot
        return out
    return rnp.cumsum(x, *a, **k)


def unique(x, **k):
    if isinstance(x, sym.SLabels):
        k = {a: b for a, b in k.items() if b}
        return x.unique(**k)
    if is_sym(x):
        raise Unsupported('unique of symbolic values')
    return rnp.unique(x, **k)


class SymLinalg(object):
    def __getattr__(self, n):
        if n == 'slogdet':
            return slogdet
        if n == 'solve':
            return solve
        return guard(n, getattr(rnp.linalg, n))


def guard(name, real):
    """A library function without a contract: concrete arguments only."""
    if not callable(real) or isinstance(real, type):
        return real

    def f(*a, **k):
        if is_sym(list(a)) or is_sym(list(k.values())):
            raise Unsupported('no contract for numpy.%s' % name)
        a = [x.astype(float) if isinstance(x, rnp.ndarray) and x.dtype == object and x.size and
             all(isinstance(v, (int, float)) for v in x.flat) else x for x in a]
        return real(*a, **k)
    return f


ONE1 = {
    'sin': _fn('sin'), 'cos': _fn('cos'), 'tan': _fn('tan'), 'arctan': _fn('atan'), 'atan': _fn('atan'),
    'exp': s_exp, 'log': s_log, 'log10': s_log10, 'sqrt': s_sqrt, 'abs': s_abs, 'absolute': s_abs, 'fabs': s_abs,
    'sign': s_sign, 'floor': s_floor, 'ceil': s_ceil, 'trunc': s_trunc, 'radians': s_radians,
    'deg2rad': s_radians, 'degrees': s_degrees, 'rad2deg': s_degrees, 'rint': s_round,
    'square': lambda x, inarr: x * x, 'negative': lambda x, inarr: -x,
}


class SymNP(object):
    """stands for the module numpy inside /repo's modules"""
    def __init__(self):
        self.pi = SReal(tm.PI)
        self.linalg = SymLinalg()
        for k, f in ONE1.items():
            setattr(self, k, unary(k, f, getattr(rnp, k if k != 'atan' else 'arctan')))
        self.arctan2 = binary('arctan2', pairwise(p_atan2), rnp.arctan2)
        self.maximum = binary('maximum', pairwise(p_max), rnp.maximum)
        self.minimum = binary('minimum', pairwise(p_min), rnp.minimum)
        self.mod = binary('mod', lambda a, b: a % b, rnp.mod)
        self.remainder = self.mod
        self.divide = binary('divide', lambda a, b: a / b, rnp.divide)
        self.true_divide = self.divide
        self.subtract = binary('subtract', lambda a, b: a - b, rnp.subtract)
        self.add = binary('add', lambda a, b: a + b, rnp.add)
        self.multiply = binary('multiply', lambda a, b: a * b, rnp.multiply)
        self.power = binary('power', lambda a, b: a ** b, rnp.power)
        self.hypot = binary('hypot', lambda a, b: self.sqrt(a ** 2 + b ** 2), rnp.hypot)
        self.logical_and = binary('logical_and', lambda a, b: a & b, rnp.logical_and)
        self.logical_or = binary('logical_or', lambda a, b: a | b, rnp.logical_or)
        self.logical_not = lambda a: ~a if is_sym(a) else rnp.logical_not(a)
        self.greater = binary('greater', lambda a, b: a > b, rnp.greater)
        self.less = binary('less', lambda a, b: a < b, rnp.less)
        for n in ('sum', 'mean', 'var', 'std', 'median', 'any', 'all', 'prod'):
            setattr(self, n, reducer(n, getattr(rnp, n)))
        for n, m in (('max', 'max'), ('amax', 'max'), ('min', 'min'), ('amin', 'min')):
            setattr(self, n, reducer(m, getattr(rnp, n)))
        self.isfinite = pred('isfinite', rnp.isfinite, True)
        self.isnan = pred('isnan', rnp.isnan, False)
        self.isinf = pred('isinf', rnp.isinf, False)
        self.where, self.append, self.concatenate = where, append, concatenate
        self.hstack, self.vstack, self.dot, self.matmul = hstack, vstack, dot, dot
        self.identity, self.eye, self.diag, self.clip = identity, identity, diag, clip
        self.round = self.around = self.round_ = np_round
        self.histogram = histogram
        plain = guard('argmax', rnp.argmax)
        self.argmax = lambda x, *a, **k: HistMode() if isinstance(x, HistCount) else plain(x, *a, **k)
        self.poly1d = Poly
        self.polyval = lambda p, x: p(x) if isinstance(p, Poly) else Poly(p)(x)
        self.arange, self.argsort, self.sort = arange, argsort, sort
        self.array = array
        self.asarray = lambda x, *a, **k: x if isinstance(x, (SArr,)) or (
            isinstance(x, rnp.ndarray) and x.dtype == object) else array(x, *a, **k)
        self.asanyarray = self.ascontiguousarray = self.asarray
        self.atleast_1d = lambda x: x if isinstance(x, SArr) else rnp.atleast_1d(array(x))
        self.zeros = lambda shape, dtype=None, **k: objzeros(shape, dtype, 0.0)
        self.ones = lambda shape, dtype=None, **k: objzeros(shape, dtype, 1.0)
        self.empty = lambda shape, dtype=None, **k: objzeros(shape, dtype, 0.0)
        self.full = full
        self.zeros_like, self.ones_like, self.empty_like = like(0.0), like(1.0), like(0.0)
        self.isclose, self.unique, self.interp, self.cumsum = isclose, unique, interp, cumsum
        self.size, self.outer = size, outer
        self.copy = lambda x, **k: x.copy() if isinstance(x, SArr) else rnp.copy(x, **k)
        self.shape = lambda x: x.shape if isinstance(x, (SArr, SReal)) else rnp.shape(x)
        self.ndim = lambda x: x.ndim if isinstance(x, (SArr, SReal)) else rnp.ndim(x)
        self.ravel = lambda x: x.ravel() if isinstance(x, SArr) else rnp.ravel(x)
        self.count_nonzero = lambda x: self.sum(x != 0) if is_sym(x) else rnp.count_nonzero(x)
        self.isscalar = lambda x: True if isinstance(x, SReal) else rnp.isscalar(x)
        self.float64 = vfloat64
        self.transpose = lambda x, *p, **k: x.transpose(*p, **k)
        self.dstack = stacked('dstack', rnp.dstack, sym.dstack)
        self.swapaxes = stacked('swapaxes', rnp.swapaxes, sym.swapaxes)
        self.reshape = lambda x, *p, **k: x.reshape(*p, **k)

    def __getattr__(self, n):
        return guard(n, getattr(rnp, n))

    def __reduce__(self):
        raise Unsupported('pickling of the numpy stand-in')


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, rnp.float64) or (isinstance(x, SReal) and x.np)

    def __call__(cls, x=0.0):
        if isinstance(x, SReal):
            return SReal(x.t, True)
        return rnp.float64(x)


vfloat64 = rnp.float64


class SymMathMod(object):
    """stands for the module math"""
    def __init__(self):
        self.pi = SReal(tm.PI)
        np_ = SymNP()
        for k in ('sin', 'cos', 'tan', 'exp', 'sqrt', 'log10', 'fabs', 'floor', 'ceil', 'radians', 'degrees', 'trunc'):
            setattr(self, k, getattr(np_, k))
        self.atan = np_.arctan
        self.atan2 = np_.arctan2
        self.log = lambda x, *b: np_.log(x) if not b else np_.log(x) / np_.log(*b)
        self.pow = np_.power
        self.hypot = np_.hypot
        self.isfinite, self.isnan, self.isinf = np_.isfinite, np_.isnan, np_.isinf
        self.fsum = np_.sum

    def __getattr__(self, n):
        return guard('math.' + n, getattr(rmath, n))


# -- scipy --------------------------------------------------------------------------------------------------------
DISTANCE = [None]     # set by a contract that keeps |a - b| opaque


def cdist(a, b, metric='euclidean', **k):
    if not (is_sym(a) or is_sym(b)):
        import scipy.spatial
        return scipy.spatial.distance.cdist(rnp.asarray(a, dtype=float), rnp.asarray(b, dtype=float), metric, **k)
    A, B = sym.to_arr(a), sym.to_arr(b)
    if A.ndim != 2 or B.ndim != 2:
        raise ValueError('XA must be a 2-dimensional array.')
    if A.shape_t[1] is not tm.ONE or B.shape_t[1] is not tm.ONE:
        raise Unsupported('cdist with several columns')
    f, g = A.f, B.f

    def d(i, j):
        if DISTANCE[0] is not None:
            x = DISTANCE[0](f(i, tm.ZERO), g(j, tm.ZERO))
            if metric in ('sqeuclidean', 'euclidean'):
                return tm.power(x, tm.const(2)) if metric == 'sqeuclidean' else x
        x = tm.sub(f(i, tm.ZERO), g(j, tm.ZERO))
        if metric == 'sqeuclidean':
            return tm.power(x, tm.const(2))
        if metric == 'euclidean':
            return tm.ite(tm.lt(x, tm.ZERO), tm.neg(x), x)
        raise Unsupported('metric ' + metric)
    r = SArr((A.shape_t[0], B.shape_t[0]), d)
    return concretise(r)


def concretise(r):
    """array of concrete shape as an object ndarray"""
    if all(s.op == 'const' for s in r.shape_t):
        out = rnp.empty([int(s.args[0]) for s in r.shape_t], dtype=object)
        for i in rnp.ndindex(out.shape):
            out[i] = SReal(r.f(*[tm.const(int(q)) for q in i]), True)
        return out
    return r


def key_of(A):
    """a matrix or vector as arguments of an uninterpreted function: its elements when its shape is concrete"""
    if all(s.op == 'const' for s in A.shape_t):
        dims = [int(s.args[0]) for s in A.shape_t]
        if rnp.prod(dims) <= 36:
            return [A.f(*[tm.const(int(q)) for q in i]) for i in rnp.ndindex(*dims)]
    return [sym.lam_of(A)]


def posdef(A):
    return SReal(tm.app('posdef', A.shape_t[0], *[rt(x) for x in key_of(A)]), True) > 0


class CholFactor(object):
    """the triangular factor: only cho_solve may look inside"""
    def __array__(self, *a, **k):
        raise Unsupported('elements of a Cholesky factor')

    def __getattr__(self, n):
        raise Unsupported('elements of a Cholesky factor')

    def __getitem__(self, i):
        raise Unsupported('elements of a Cholesky factor')


def cho_factor(K, *a, **k):
    # contract: LinAlgError unless positive definite, ValueError unless a square matrix
    A = sym.to_arr(K) if isinstance(K, (SArr, rnp.ndarray)) else None
    if A is None or A.ndim != 2 or not (sym.same_dim(*A.shape_t) or sym.eng().branch(tm.eq(*A.shape_t))):
        raise ValueError('expected square matrix')
    if not posdef(A):
        raise rnp.linalg.LinAlgError('matrix is not positive definite')
    return (CholFactor(), A)


def solve(A, b, *a, **k):
    # contract of the general solver; used only under a positive definite matrix in the contracts
    return cho_solve(('cho', sym.to_arr(A)), b)


def cho_solve(c, b, *a, **k):
    A = c[1]
    B = sym.to_arr(b)
    L = [rt(x) for x in key_of(A)]
    if B.ndim == 1:
        R = [rt(x) for x in key_of(B)]
        return concretise(SArr((A.n,), lambda i: tm.app('solve', A.n, *(L + R + [i]))))
    f = B.f
    # column by column, so that the solution for column j does not depend on the other columns
    def sol(i, j):
        col = key_of(SArr((B.shape_t[0],), lambda q: rt(f(q, j))))
        return tm.app('solve', A.n, *(L + [rt(x) for x in col] + [i]))
    return concretise(SArr((A.n, B.shape_t[1]), sol))


class SymNorm(object):
    """scipy.stats.norm with the quantile function opaque: ppf(u,mu,sigma)=mu+sigma*Phi^-1(u)"""
    def ppf(self, u, loc=0, scale=1, **k):
        return SReal(tm.add(lift(loc), tm.mul(lift(scale), tm.app('normppf', lift(u)))), True)

    def cdf(self, x, loc=0, scale=1, **k):
        return SReal(tm.app('normcdf', tm.div(tm.sub(lift(x), lift(loc)), lift(scale))), True)

    def pdf(self, x, loc=0, scale=1, **k):
        z = (SReal(lift(x)) - loc) / scale
        return s_exp(z * z * Fraction(-1, 2), True) / (SReal(tm.power(tm.mul(tm.const(2), tm.PI), HALF)) * scale)

    def logpdf(self, x, loc=0, scale=1, **k):
        z = (SReal(lift(x)) - loc) / scale
        return z * z * Fraction(-1, 2) - s_log(SReal(tm.mul(tm.const(2), tm.PI)), True) / 2 - s_log(SReal(lift(scale)), True)

    def __getattr__(self, n):
        raise Unsupported('scipy.stats.norm.' + n)


class ModProxy(object):
    """a library module with some functions replaced by contracts"""
    def __init__(self, real, over):
        self.__dict__['_real'] = real
        self.__dict__['_over'] = over

    def __getattr__(self, n):
        if n in self._over:
            return self._over[n]
        return getattr(self._real, n)


def scipy_over():
    import scipy
    import scipy.spatial
    import scipy.linalg
    import scipy.stats
    import scipy.optimize
    dist = ModProxy(scipy.spatial.distance, {'cdist': cdist})
    spat = ModProxy(scipy.spatial, {'distance': dist})
    lin = ModProxy(scipy.linalg, {'cho_factor': cho_factor, 'cho_solve': cho_solve, 'solve': solve})
    stats = ModProxy(scipy.stats, {'norm': SymNorm()})
    sp = ModProxy(scipy, {'spatial': spat, 'linalg': lin, 'stats': stats})
    return {id(scipy): sp, id(scipy.spatial): spat, id(scipy.spatial.distance): dist, id(scipy.linalg): lin,
            id(scipy.stats): stats, id(scipy.linalg.cho_factor): cho_factor, id(scipy.linalg.cho_solve): cho_solve,
            id(scipy.stats.norm): stats._over['norm'], id(scipy.spatial.distance.cdist): cdist}


# -- astropy units: a value with a unit; conversion multiplies by astropy's own factor -------------------------------
class SymUnit(object):
    __array_ufunc__ = None
    __vc_quantity__ = True

    def __init__(self, u):
        self.u = u

    def __rmul__(self, v):
        return SymQ(v, self.u)

    def __mul__(self, o):
        if isinstance(o, SymUnit):
            return SymUnit(self.u * o.u)
        return SymQ(o, self.u)

    def __truediv__(self, o):
        return SymUnit(self.u / o.u)

    def __rtruediv__(self, v):
        return SymQ(v, 1 / self.u)

    def __pow__(self, n):
        return SymUnit(self.u ** n)

    def to(self, o, *a):
        return self.u.to(o.u, *a)


class SymQ(object):
    __array_ufunc__ = None
    __vc_quantity__ = True

    def __init__(self, v, u):
        if isinstance(v, rnp.ndarray) and v.ndim == 0:
            v = v.item()
            v = SReal(lift(v), True)
        self.value, self.unit = v, u

    def to(self, o):
        f = self.unit.to(o.u)
        return SymQ(self.value * tm_const(f), o.u)

    def _b(self, o):
        if isinstance(o, SymQ):
            return o.value, o.unit
        if isinstance(o, SymUnit):
            return 1, o.u
        import astropy.units as U
        return o, U.dimensionless_unscaled

    def __mul__(self, o):
        v, u = self._b(o)
        return SymQ(self.value * v, self.unit * u)

    def __rmul__(self, o):
        return self * o

    def __truediv__(self, o):
        v, u = self._b(o)
        return SymQ(self.value / v, self.unit / u)

    def __rtruediv__(self, o):
        v, u = self._b(o)
        return SymQ(v / self.value, u / self.unit)

    def __pow__(self, n):
        return SymQ(self.value ** n, self.unit ** n)

    def __add__(self, o):
        v, u = self._b(o)
        return SymQ(self.value + v * tm_const(u.to(self.unit)), self.unit)


def tm_const(f):
    return SReal(tm.from_float(float(f)))


class SymUnits(object):
    def __getattr__(self, n):
        import astropy.units as U
        x = getattr(U, n)
        return SymUnit(x) if isinstance(x, U.UnitBase) else x


class RootResult(object):
    def __init__(self, x):
        self.x = x
        self.success = True


def root(func, x0, *a, **k):
    """scipy.optimize.root by its contract: the returned point is a root of func (convergence assumed)"""
    e = sym.eng()
    e.note('scipy.optimize.root: assumed to return a positive root of the function it is given')
    x = SReal(tm.fresh('root', False), True)
    e.assume(tm.lt(tm.ZERO, x.t))
    v = func(x)
    if isinstance(v, rnp.ndarray):
        v = v.reshape(-1)[0]
    if isinstance(v, SArr):
        v = v[0]
    e.assume(tm.eq(lift(v), tm.ZERO))
    o = rnp.empty(1, dtype=object)
    o[0] = x
    return RootResult(o)
