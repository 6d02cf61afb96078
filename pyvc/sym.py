"""Symbolic values on which the real Python code of /repo is executed by CPython itself."""
import builtins
import math
import numbers
from fractions import Fraction

import numpy as rnp

from . import terms as tm
from .terms import T


class Unsupported(Exception):
    """The verifier cannot reason about this construct (never a verdict on the code)."""


class PathEnd(BaseException):
    """The current path stops here (assumption false, loop-invariant path finished, process exit)."""


ENGINE = [None]


def eng():
    return ENGINE[0]


def lift(x):
    """Python value -> real-sorted term (None if it is not a finite number)."""
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SBool):
        return tm.ite(x.t, tm.ONE, tm.ZERO)
    if isinstance(x, (bool, rnp.bool_)):
        return tm.const(int(x))
    if isinstance(x, (int, rnp.integer)):
        return tm.const(int(x))
    if isinstance(x, (float, rnp.floating)):
        if x != x or x in (math.inf, -math.inf):
            return None
        return tm.from_float(x)
    if isinstance(x, Fraction):
        return tm.const(x)
    if isinstance(x, rnp.ndarray) and x.ndim == 0:
        return lift(x.item())
    if isinstance(x, T):
        return x
    return None


def is_num(x):
    return isinstance(x, (SReal, SBool, bool, int, float, rnp.bool_, rnp.number, Fraction))


def is_inf(x):
    return isinstance(x, (float, rnp.floating)) and (x == math.inf or x == -math.inf)


def is_nan(x):
    return isinstance(x, (float, rnp.floating)) and x != x


class SBool(object):
    __slots__ = ('t',)
    __array_ufunc__ = None

    def __init__(self, t):
        self.t = t

    def __bool__(self):
        return eng().branch(self.t)

    def _b(self, o):
        if isinstance(o, SBool):
            return o.t
        if isinstance(o, (bool, rnp.bool_)):
            return tm.TRUE if o else tm.FALSE
        if isinstance(o, SReal):
            return tm.not_(tm.eq(o.t, tm.ZERO))
        return None

    def __and__(self, o):
        if isinstance(o, (SArr, rnp.ndarray)):
            return NotImplemented if isinstance(o, SArr) else ew(lambda a, b: a & b, self, o)
        return SBool(tm.and_(self.t, self._b(o)))
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (SArr, rnp.ndarray)):
            return NotImplemented if isinstance(o, SArr) else ew(lambda a, b: a | b, self, o)
        return SBool(tm.or_(self.t, self._b(o)))
    __ror__ = __or__

    def __invert__(self):
        return SBool(tm.not_(self.t))

    def __eq__(self, o):
        if isinstance(o, SBool):
            return SBool(tm.iff(self.t, o.t))
        if isinstance(o, (bool, rnp.bool_)):
            return self if o else SBool(tm.not_(self.t))
        return SReal(lift(self)) == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return SBool(tm.not_(r.t)) if isinstance(r, SBool) else not r

    def __hash__(self):
        return hash(self.t.tid)

    def _r(self):
        return SReal(lift(self))

    def __add__(self, o): return self._r() + o
    def __radd__(self, o): return o + self._r()
    def __sub__(self, o): return self._r() - o
    def __rsub__(self, o): return o - self._r()
    def __mul__(self, o): return self._r() * o
    def __rmul__(self, o): return o * self._r()
    def __lt__(self, o): return self._r() < o
    def __le__(self, o): return self._r() <= o
    def __gt__(self, o): return self._r() > o
    def __ge__(self, o): return self._r() >= o
    def __repr__(self): return '<%s>' % self.t


def sb(t):
    if t is tm.TRUE:
        return True
    if t is tm.FALSE:
        return False
    return SBool(t)


def _num(op):
    def f(self, o):
        if isinstance(o, rnp.ndarray) and o.ndim > 0:
            return ew(lambda a, b: getattr(builtin_op, op)(a, b), self, o)
        if isinstance(o, SArr):
            return NotImplemented
        return getattr(builtin_op, op)(self, o)
    return f


class builtin_op(object):
    """binary operations on numbers of which at least one is symbolic"""
    @staticmethod
    def _pair(a, b):
        x, y = lift(a), lift(b)
        return x, y

    @staticmethod
    def add(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            for v in (a, b):
                if is_inf(v) or is_nan(v):
                    return v
            return NotImplemented
        return mkr(tm.add(x, y), a, b)

    @staticmethod
    def sub(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            if is_inf(a) or is_nan(a):
                return a
            if is_inf(b) or is_nan(b):
                return -b
            return NotImplemented
        return mkr(tm.sub(x, y), a, b)

    @staticmethod
    def mul(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            if x is None:
                a, b, y = b, a, x if y is None else y
            if is_nan(b):
                return b
            if is_inf(b):
                s = SReal(lift(a))
                if s > 0:
                    return b
                if s < 0:
                    return -b
                return math.nan
            return NotImplemented
        return mkr(tm.mul(x, y), a, b)

    @staticmethod
    def div(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            if is_nan(a) or is_nan(b):
                return math.nan
            if is_inf(b):
                return 0.0
            if is_inf(a):
                return builtin_op.mul(SReal(lift(b)), a)
            return NotImplemented
        if y.op == 'const' and y.args[0] == 0:
            raise ZeroDivisionError('float division by zero')
        eng().note_div(y)
        return mkr(tm.div(x, y), a, b)

    @staticmethod
    def floordiv(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return NotImplemented
        eng().note_div(y)
        return mkr(tm.fn('floor', tm.div(x, y)), a, b)

    @staticmethod
    def mod(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return NotImplemented
        eng().note_div(y)
        return mkr(tm.sub(x, tm.mul(y, tm.fn('floor', tm.div(x, y)))), a, b)

    @staticmethod
    def pow(a, b):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return NotImplemented
        return mkr(tm.power(x, y), a, b)


def _isnp(x):
    return (isinstance(x, SReal) and x.np) or isinstance(x, (rnp.generic, rnp.ndarray))


def mkr(t, *src):
    return SReal(t, any(_isnp(s) for s in src))


def _cmp(name):
    def f(self, o):
        if isinstance(o, rnp.ndarray) and o.ndim > 0:
            return ew(lambda a, b: compare(name, a, b), self, o)
        if isinstance(o, SArr):
            return NotImplemented
        return compare(name, self, o)
    return f


def compare(name, a, b):
    x, y = lift(a), lift(b)
    if x is None or y is None:
        if name == 'eq':
            return False
        if name == 'ne':
            return True
        if is_nan(a) or is_nan(b):
            return False
        if is_inf(b):
            return {'lt': b > 0, 'le': b > 0, 'gt': b < 0, 'ge': b < 0}[name]
        if is_inf(a):
            return {'lt': a < 0, 'le': a < 0, 'gt': a > 0, 'ge': a > 0}[name]
        return NotImplemented
    return sb({'lt': lambda: tm.lt(x, y), 'le': lambda: tm.le(x, y), 'gt': lambda: tm.lt(y, x),
               'ge': lambda: tm.le(y, x), 'eq': lambda: tm.eq(x, y), 'ne': lambda: tm.not_(tm.eq(x, y))}[name]())


class SReal(object):
    """A real number (a float of the program, arithmetic exact) or an integer."""
    __slots__ = ('t', 'np')
    __array_ufunc__ = None
    __array_priority__ = 1000

    def __init__(self, t, np=False):
        self.t = t
        self.np = np

    __add__ = _num('add')
    __sub__ = _num('sub')
    __mul__ = _num('mul')
    __truediv__ = _num('div')
    __floordiv__ = _num('floordiv')
    __mod__ = _num('mod')
    __pow__ = _num('pow')

    def _rop(op):
        def f(self, o):
            if isinstance(o, rnp.ndarray) and o.ndim > 0:
                return ew(lambda a, b: getattr(builtin_op, op)(a, b), o, self)
            return getattr(builtin_op, op)(o, self)
        return f
    __radd__ = _rop('add')
    __rsub__ = _rop('sub')
    _rmul = _rop('mul')

    def __rmul__(self, o):
        if isinstance(o, list) and len(o) == 1 and not isinstance(o[0], (SReal, SBool, float, int)):
            return SRep([(o[0], self.t)])
        return self._rmul(o)
    __rtruediv__ = _rop('div')
    __rfloordiv__ = _rop('floordiv')
    __rmod__ = _rop('mod')
    __rpow__ = _rop('pow')
    __lt__ = _cmp('lt')
    __le__ = _cmp('le')
    __gt__ = _cmp('gt')
    __ge__ = _cmp('ge')
    __eq__ = _cmp('eq')
    __ne__ = _cmp('ne')

    def __getitem__(self, i):
        if self.np:
            if i is None or i is Ellipsis or i == ():
                raise Unsupported('indexing a 0-d value')
            raise IndexError('invalid index to scalar variable.')
        raise TypeError("'float' object is not subscriptable")

    def __hash__(self):
        return hash(self.t.tid)

    def __neg__(self):
        return SReal(tm.neg(self.t), self.np)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(tm.ite(tm.lt(self.t, tm.ZERO), tm.neg(self.t), self.t), self.np)

    def __bool__(self):
        return eng().branch(tm.not_(tm.eq(self.t, tm.ZERO)))

    def __float__(self):
        if self.t.op == 'const':
            return float(self.t.args[0])
        if self.t is tm.PI:
            return math.pi
        raise Unsupported('conversion of a symbolic number to a machine float')

    def __int__(self):
        if self.t.op == 'const':
            return int(self.t.args[0])
        raise Unsupported('conversion of a symbolic number to a machine integer')

    def __index__(self):
        if self.t.op == 'const' and self.t.args[0].denominator == 1:
            return int(self.t.args[0])
        raise Unsupported('symbolic number used as a machine index')

    def __round__(self, n=None):
        if n is None:
            return SReal(tm.app('int:round', self.t), self.np)
        return SReal(tm.app('round', self.t, lift(n)), self.np)

    def __repr__(self):
        return '<%s>' % self.t

    def __format__(self, spec):
        if spec and self.t.op == 'const':
            return format(float(self.t.args[0]), spec)
        return '<%s of number %d>' % (spec, self.t.tid) if spec else str(self)

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self

    # numpy-scalar look-alikes
    def item(self):
        return SReal(self.t)

    def copy(self):
        return self

    @property
    def real(self):
        return self

    @property
    def size(self):
        return 1

    @property
    def shape(self):
        return ()

    ndim = 0

    def any(self): return self != 0
    def all(self): return self != 0
    def sum(self): return self
    def flatten(self): return rnp.array([self], dtype=object)
    def astype(self, *a, **k): return self


numbers.Number.register(SReal)


def ew(f, *xs):
    """elementwise over concrete-shape arrays of objects"""
    n = len(xs)
    args = []
    for x in xs:
        if isinstance(x, rnp.ndarray):
            args.append(x if x.dtype == object else x.astype(object))
        else:
            o = rnp.empty((), dtype=object)
            o[()] = x
            args.append(o)
    bc = rnp.broadcast(*args)
    out = rnp.empty(bc.shape, dtype=object)
    flat = out.reshape(-1)
    for i, vals in enumerate(bc):
        flat[i] = f(*vals)
    return out


# ---------------------------------------------------------------------------------------------------------------
class SLabels(object):
    """an array of symbolic length whose elements are labels out of a known set (each one occurs)"""
    __array_ufunc__ = None
    ndim = 1

    def __init__(self, name, n, labels):
        self.name, self.n, self.labels = name, n, list(labels)

    def is_(self, l):
        """indicator of the positions of a label; the labels exclude one another and cover everything"""
        k = self.labels.index(l)
        code = lambda i: tm.sel(self.name, i)
        if k == len(self.labels) - 1:
            return lambda i: tm.and_(*[tm.not_(tm.eq(code(i), tm.const(j))) for j in range(k)])
        return lambda i: tm.eq(code(i), tm.const(k))

    def __eq__(self, l):
        l = str(l)
        if l not in self.labels:
            return SArr((self.n,), lambda i: tm.FALSE, 'B')
        return SArr((self.n,), self.is_(l), 'B')

    def __ne__(self, l):
        return ~(self == l)
    __hash__ = object.__hash__

    def unique(self, **k):
        v = rnp.array(sorted(self.labels))
        if not k:
            return v
        if set(k) != {'return_index'}:
            raise Unsupported('np.unique options')
        first = rnp.empty(len(v), dtype=object)
        for j, l in enumerate(v):
            x = tm.var('first_%s_%s' % (self.name, l), True)
            f = self.is_(str(l))
            eng().assume(tm.and_(tm.le(tm.ZERO, x), tm.lt(x, self.n)))
            eng().assume(f(x))
            first[j] = SReal(x, True)
        for a in range(len(v)):
            for b in range(a):
                eng().assume(tm.not_(tm.eq(first[a].t, first[b].t)))
        return v, first

    def __vc_len__(self):
        return intv(self.n)

    @property
    def shape(self):
        return (intv(self.n),)

    def __getitem__(self, k):
        if isinstance(k, slice) and k.start in (None, 0) and k.step in (None, 1) and len(self.labels) == 1 and \
                isinstance(k.stop, (int, SReal)):
            stop = lift(k.stop)
            if eng().branch(tm.lt(self.n, stop)):
                stop = self.n
            return SRep([(self.labels[0], stop)])
        raise Unsupported('element of an array of labels')

    def __iter__(self):
        raise Unsupported('iteration over labels')
    __len__ = __iter__


class SRep(object):
    """a list or array made of runs of equal values (labels), each of symbolic length"""
    __array_ufunc__ = None

    def __init__(self, parts):
        self.parts = [(v, n) for v, n in parts if n != tm.ZERO]

    def __vc_len__(self):
        return intv(tm.add(*[n for _, n in self.parts]) if self.parts else tm.ZERO)

    def __add__(self, o):
        return SRep(self.parts + rep_of(o).parts)

    def __radd__(self, o):
        return SRep(rep_of(o).parts + self.parts)

    def __len__(self):
        raise Unsupported('machine length of a symbolic list')

    def __iter__(self):
        raise Unsupported('iteration over a symbolic list')

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('method %s of an array of labels' % k)

    def __eq__(self, o):
        raise Unsupported('comparison of an array of labels')
    __hash__ = object.__hash__

    def __getitem__(self, k):
        raise Unsupported('element of an array of labels')

    def copy(self):
        return SRep(self.parts)


def rep_of(o):
    if isinstance(o, SRep):
        return o
    if isinstance(o, (list, tuple, rnp.ndarray)) and (not isinstance(o, rnp.ndarray) or o.ndim == 1):
        return SRep([(v.item() if hasattr(v, 'item') else v, tm.ONE) for v in o])
    if isinstance(o, SLabels) and len(o.labels) == 1:
        return SRep([(o.labels[0], o.n)])
    raise Unsupported('joining labels with %s' % type(o).__name__)


class SArr(object):
    """An array of symbolic shape: dims are integer terms, f maps index terms to an element term.

    `mask` (with `base` length) marks an array selected by a boolean mask: element terms are still indexed by the
    positions of the *unselected* array, and only positions where mask holds exist.  `parts` remembers a
    concatenation.
    """
    __array_ufunc__ = None
    __array_priority__ = 2000

    def __init__(self, shape, f, kind='R', mask=None, parts=None, view=False):
        self.shape_t = tuple(shape)
        self.f = f
        self.kind = kind            # 'R' reals, 'B' booleans, 'I' index set given by mask
        self.mask = mask
        self.parts = parts
        self.view = view

    @property
    def f(self):
        e = ENGINE[0]
        if e is not None and e.map_loops:
            e.touched[id(self)] = self
        return self._f

    @f.setter
    def f(self, v):
        self._f = v

    # -- shape
    @property
    def n(self):
        return self.shape_t[0]

    @property
    def ndim(self):
        return len(self.shape_t)

    def length_t(self):
        if self.mask is not None:
            m = self.mask
            return tm.count(self.n, lambda i: m(i))
        return self.n

    @property
    def shape(self):
        if self.mask is not None:
            return (intv(self.length_t()),)
        return tuple(intv(d) for d in self.shape_t)

    @property
    def size(self):
        if self.mask is not None:
            return intv(self.length_t())
        r = tm.ONE
        for d in self.shape_t:
            r = tm.mul(r, d)
        return intv(r)

    def __len__(self):
        n = intv(self.length_t())
        if isinstance(n, int):
            return n
        raise Unsupported('len() of an array of symbolic length outside a contract-aware call')

    def el(self, t):
        return sb(t) if self.kind == 'B' else SReal(t, True)

    def snap(self):
        """value semantics copy of the element function"""
        return self.f

    # -- arithmetic
    def _bin(self, o, g, kind='R'):
        return arr_map(g, [self, o], kind)

    def _mk(op):
        def f(self, o):
            if hasattr(o, '__vc_quantity__'):
                return NotImplemented
            return arr_map(lambda a, b: termop(op, a, b), [self, o])
        return f

    def _mkr(op):
        def f(self, o):
            return arr_map(lambda a, b: termop(op, a, b), [o, self])
        return f
    __add__, __radd__ = _mk('add'), _mkr('add')
    __sub__, __rsub__ = _mk('sub'), _mkr('sub')
    __mul__, __rmul__ = _mk('mul'), _mkr('mul')
    __truediv__, __rtruediv__ = _mk('div'), _mkr('div')
    __floordiv__, __rfloordiv__ = _mk('floordiv'), _mkr('floordiv')
    __mod__, __rmod__ = _mk('mod'), _mkr('mod')
    __pow__, __rpow__ = _mk('pow'), _mkr('pow')

    def _cmpop(op):
        def f(self, o):
            if o is None or isinstance(o, str):
                raise Unsupported('comparison of an array with %r' % (o,))
            return arr_map(lambda a, b: termcmp(op, a, b), [self, o], 'B')
        return f
    __lt__, __le__, __gt__, __ge__ = _cmpop('lt'), _cmpop('le'), _cmpop('gt'), _cmpop('ge')
    __eq__, __ne__ = _cmpop('eq'), _cmpop('ne')
    __hash__ = object.__hash__

    def _inp(op):
        def f(self, o):
            if self.view:
                raise Unsupported('in-place update of an array view')
            r = arr_map(lambda a, b: termop(op, a, b), [self, o])
            if len(r.shape_t) != len(self.shape_t):
                raise ValueError('non-broadcastable output operand')
            for p, q in zip(r.shape_t, self.shape_t):
                if p is not q and not same_dim(p, q) and not eng().branch(tm.eq(p, q)):
                    raise ValueError('non-broadcastable output operand')
            self.f, self.parts = r.f, r.parts
            eng().mutated(self)
            return self
        return f
    __iadd__, __isub__, __imul__, __itruediv__ = _inp('add'), _inp('sub'), _inp('mul'), _inp('div')

    def __neg__(self):
        return arr_map(lambda a: tm.neg(a), [self])

    def __abs__(self):
        return arr_map(lambda a: tm.ite(tm.lt(a, tm.ZERO), tm.neg(a), a), [self])

    def __and__(self, o):
        return arr_map(lambda a, b: tm.and_(tobool(a), tobool(b)), [self, o], 'B')
    __rand__ = __and__

    def __or__(self, o):
        return arr_map(lambda a, b: tm.or_(tobool(a), tobool(b)), [self, o], 'B')
    __ror__ = __or__

    def __invert__(self):
        return arr_map(lambda a: tm.not_(tobool(a)), [self], 'B')

    def __bool__(self):
        # ndarray/Series truth value: defined only for a single element
        n = self.length_t()
        if eng().branch(tm.eq(n, tm.ONE)):
            if self.mask is None and self.ndim == 1:
                return eng().branch(tobool(self.f(tm.ZERO)))
            raise Unsupported('truth value of an array')
        raise ValueError('The truth value of an array with more than one element is ambiguous. '
                         'Use a.any() or a.all()')

    def __iter__(self):
        n = intv(self.length_t())
        if isinstance(n, int) and self.mask is None:
            return iter([self[i] for i in range(n)])
        raise Unsupported('iteration over an array of symbolic length')

    # -- indexing
    def _norm(self, i, d):
        t = lift(i)
        if t is None:
            raise Unsupported('index %r' % (i,))
        if t.op == 'const' and t.args[0] < 0:
            t = tm.add(d, t)
        return t

    def __getitem__(self, key):
        if isinstance(key, SArr) and key.kind in ('B', 'I') and key.mask is None and key.kind == 'B':
            if self.ndim != 1:
                raise Unsupported('mask of a matrix')
            if self.mask is not None:
                raise Unsupported('mask of a masked array')
            return SArr(self.shape_t, self.f, self.kind, mask=key.f)
        if isinstance(key, SArr) and key.kind == 'I':
            return SArr(self.shape_t, self.f, self.kind, mask=key.mask)
        if isinstance(key, SArr) and key.kind == 'R' and self.ndim == 1 and self.mask is None:
            f, g = self.f, key.f
            return SArr(key.shape_t, lambda i: f(g(i)), self.kind, mask=key.mask)
        if isinstance(key, tuple) and len(key) == 1:
            return self[key[0]]
        if self.mask is not None:
            raise Unsupported('indexing into a masked selection')
        if isinstance(key, slice):
            key = (key,)
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            raise Unsupported('ellipsis')
        # general: ints, slices, None
        out_shape, plan = [], []
        d = 0
        allint = True
        for k in key:
            if k is None:
                out_shape.append(tm.ONE)
                plan.append(('new',))
                allint = False
            elif isinstance(k, slice):
                a = tm.ZERO if k.start is None else self._norm(k.start, self.shape_t[d])
                b = self.shape_t[d] if k.stop is None else self._norm(k.stop, self.shape_t[d])
                if k.step not in (None, 1):
                    if k.step == -1 and k.start is None and k.stop is None:
                        n = self.shape_t[d]
                        out_shape.append(n)
                        plan.append(('rev', n))
                        d += 1
                        allint = False
                        continue
                    raise Unsupported('strided slice')
                if k.stop is not None:
                    # numpy clips the slice to the array
                    if eng().branch(tm.lt(self.shape_t[d], b)):
                        b = self.shape_t[d]
                    if eng().branch(tm.lt(b, a)):
                        b = a
                out_shape.append(tm.sub(b, a))
                plan.append(('off', a))
                d += 1
                allint = False
            else:
                plan.append(('fix', self._norm(k, self.shape_t[d])))
                eng().note_index(plan[-1][1], self.shape_t[d])
                d += 1
        for dd in range(d, self.ndim):
            out_shape.append(self.shape_t[dd])
            plan.append(('off', tm.ZERO))
            allint = False
        src = self

        def g(*idx):
            idx = list(idx)
            full = []
            for p in plan:
                if p[0] == 'new':
                    idx.pop(0)
                elif p[0] == 'off':
                    full.append(tm.add(p[1], idx.pop(0)))
                elif p[0] == 'rev':
                    full.append(tm.sub(tm.sub(p[1], tm.ONE), idx.pop(0)))
                else:
                    full.append(p[1])
            return src.f(*full)
        if allint:
            e = ENGINE[0]
            if e is not None and e.map_loops and id(self) not in e.touched and len(plan) == 1:
                r = self.el(g())
                if e.is_iter(plan[0][1]):
                    e.touched.pop(id(self), None)
                return r
            return self.el(g())
        return SArr(out_shape, g, self.kind, view=True)

    def __setitem__(self, key, val):
        if self.view:
            raise Unsupported('write through an array view')
        if self.mask is not None:
            raise Unsupported('write into a masked selection')
        old = self._f
        eng().mutated(self)
        self.parts = None
        if isinstance(key, SArr) and self.ndim == 1 and (key.kind == 'B' or key.kind == 'I'):
            m = key.f if key.kind == 'B' else key.mask
            if isinstance(val, SArr):
                if val.mask is None or not same_mask(val.mask, m, self.n):
                    # numpy requires len(val) == number of selected positions
                    raise Unsupported('masked assignment from an array with a different mask')
                vf = val.f
            else:
                t = lift(val)
                if t is None:
                    raise Unsupported('masked assignment of %r' % (val,))
                vf = lambda i: t
            self.f = lambda i: tm.ite(m(i), vf(i), old(i))
            return
        if isinstance(key, slice) and key == slice(None):
            r = arr_map(lambda a, b: b, [self, val])
            self.f = r.f
            return
        if not isinstance(key, tuple):
            key = (key,)
        if len(key) == self.ndim and not any(isinstance(k, (slice, SArr)) or k is None for k in key):
            ks = [self._norm(k, d) for k, d in zip(key, self.shape_t)]
            for k, d in zip(ks, self.shape_t):
                eng().note_index(k, d)
            v = lift(val)
            if v is None:
                raise Unsupported('element assignment of %r' % (val,))
            self.f = lambda *idx: tm.ite(tm.and_(*[tm.eq(i, k) for i, k in zip(idx, ks)]), v, old(*idx))
            return
        if len(key) == 1 and self.ndim == 1 and isinstance(key[0], slice) and key[0].step in (None, 1):
            k = key[0]
            a = tm.ZERO if k.start is None else self._norm(k.start, self.n)
            b = self.n if k.stop is None else self._norm(k.stop, self.n)
            if isinstance(val, SArr):
                vf = val.f
                g = lambda i: vf(tm.sub(i, a))
            else:
                t = lift(val)
                g = lambda i: t
            self.f = lambda i: tm.ite(tm.and_(tm.le(a, i), tm.lt(i, b)), g(i), old(i))
            return
        raise Unsupported('array assignment with key %r' % (key,))

    # -- methods used by the code
    def copy(self):
        return SArr(self.shape_t, self.f, self.kind, self.mask, self.parts)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def T(self):
        if self.ndim == 2:
            s = self
            return SArr(self.shape_t[::-1], lambda i, j: s.f(j, i), self.kind, view=True)
        if self.ndim > 2:
            return permute(self, list(range(self.ndim))[::-1])
        return self

    def transpose(self, *p):
        if len(p) == 1 and isinstance(p[0], (tuple, list)):
            p = tuple(p[0])
        return permute(self, p) if p else self.T

    def swapaxes(self, p, q):
        return swapaxes(self, p, q)

    def flatten(self):
        if self.ndim == 1:
            return self.copy()
        f = self.f
        if self.ndim == 2 and self.shape_t[1] is tm.ONE:
            return SArr(self.shape_t[:1], lambda i: f(i, tm.ZERO), self.kind)
        if self.ndim == 2 and self.shape_t[0] is tm.ONE:
            return SArr(self.shape_t[1:], lambda i: f(tm.ZERO, i), self.kind)
        r = self
        while r.ndim > 1:
            r = r.merge_last()
        return r
    ravel = flatten

    def reshape(self, *shape):
        if len(shape) == 1 and isinstance(shape[0], tuple):
            shape = shape[0]
        f = self.f
        if self.ndim == 1 and len(shape) == 2:
            if shape[1] == 1 and isinstance(shape[1], int):
                return SArr((self.n, tm.ONE), lambda i, j: f(i), self.kind)
            if shape[0] == 1 and isinstance(shape[0], int):
                return SArr((tm.ONE, self.n), lambda i, j: f(j), self.kind)
        if len(shape) == 1 and self.ndim == 1:
            if (isinstance(shape[0], int) and shape[0] == -1) or same_dim(lift(shape[0]), self.n):
                return self.copy()
        if len(shape) == 1 and isinstance(shape[0], int) and shape[0] == -1 and self.ndim <= 2 and \
                any(d is tm.ONE for d in self.shape_t):
            return self.flatten()
        # the last axes merged into one
        k = len(shape)
        if self.ndim > k >= 1 and all(same_dim(lift(p), q) for p, q in zip(shape[:-1], self.shape_t[:k - 1])):
            rest = self.shape_t[k - 1:]
            prod = tm.ONE
            for d in rest:
                prod = tm.mul(prod, d)
            if (isinstance(shape[-1], int) and shape[-1] == -1) or same_dim(lift(shape[-1]), prod):
                r = self
                while r.ndim > k:
                    r = r.merge_last()
                return r
        raise Unsupported('reshape')

    def merge_last(self):
        f, (w, s) = self.f, self.shape_t[-2:]
        eng().flat_dims.setdefault(tm.mul(w, s), (w, s))
        return SArr(self.shape_t[:-2] + (tm.mul(w, s),), lambda *ix: f(*(ix[:-1] + unflatten(ix[-1], s))), self.kind)

    def astype(self, dt, **k):
        return self.copy()

    def sum(self, axis=None):
        return asum(self, axis)

    def mean(self, axis=None):
        return amean(self, axis)

    def var(self, axis=None, ddof=0):
        return avar(self, axis, ddof)

    def std(self, axis=None, ddof=0):
        return ssqrt(avar(self, axis, ddof))

    def any(self):
        return aany(self)

    def all(self):
        return aall(self)

    def min(self, axis=None): return aminmax('min', self, axis)
    def max(self, axis=None): return aminmax('max', self, axis)
    def dot(self, o): return adot(self, o)
    @property
    def values(self): return self
    def tolist(self): raise Unsupported('tolist of a symbolic array')
    def __repr__(self):
        return 'SArr%s' % (tuple(str(s) for s in self.shape_t),)


def intv(t):
    if t.op == 'const':
        return int(t.args[0])
    return SReal(t)


def tobool(t):
    if tm.is_bool(t):
        return t
    return tm.not_(tm.eq(t, tm.ZERO))


def termop(op, a, b):
    if tm.is_bool(a):
        a = tm.ite(a, tm.ONE, tm.ZERO)
    if tm.is_bool(b):
        b = tm.ite(b, tm.ONE, tm.ZERO)
    if op == 'add':
        return tm.add(a, b)
    if op == 'sub':
        return tm.sub(a, b)
    if op == 'mul':
        return tm.mul(a, b)
    if op == 'div':
        return tm.div(a, b)
    if op == 'pow':
        return tm.power(a, b)
    if op == 'mod':
        return tm.sub(a, tm.mul(b, tm.fn('floor', tm.div(a, b))))
    if op == 'floordiv':
        return tm.fn('floor', tm.div(a, b))
    raise Unsupported(op)


def termcmp(op, a, b):
    if tm.is_bool(a) and tm.is_bool(b) and op in ('eq', 'ne'):
        r = tm.iff(a, b)
        return r if op == 'eq' else tm.not_(r)
    if tm.is_bool(a):
        a = tm.ite(a, tm.ONE, tm.ZERO)
    if tm.is_bool(b):
        b = tm.ite(b, tm.ONE, tm.ZERO)
    return {'lt': lambda: tm.lt(a, b), 'le': lambda: tm.le(a, b), 'gt': lambda: tm.lt(b, a),
            'ge': lambda: tm.le(b, a), 'eq': lambda: tm.eq(a, b), 'ne': lambda: tm.not_(tm.eq(a, b))}[op]()


def same_mask(m1, m2, n):
    if m1 is m2:
        return True
    i = tm.fresh('m', True)
    a, b = m1(i), m2(i)
    if a is b:
        return True
    return eng().prove_now(tm.implies(tm.and_(tm.le(tm.ZERO, i), tm.lt(i, n)), tm.iff(a, b)), [i])


def same_dim(a, b):
    if a is b:
        return True
    if a.op == 'const' and b.op == 'const':
        return a.args[0] == b.args[0]
    return eng().prove_now(tm.eq(a, b), [])


def to_arr(x):
    """Any operand of an array operation as SArr or scalar term (or None)."""
    if isinstance(x, SArr):
        return x
    if isinstance(x, rnp.ndarray) and x.ndim > 0:
        dims = tuple(tm.const(d) for d in x.shape)
        data = x

        def f(*idx):
            if all(i.op == 'const' for i in idx):
                return lift_any(data[tuple(int(i.args[0]) for i in idx)])
            # table lookup by a symbolic index
            if data.ndim == 1 and data.shape[0] <= 64:
                r = lift_any(data[-1]) if data.shape[0] else tm.ZERO
                for j in range(data.shape[0] - 2, -1, -1):
                    r = tm.ite(tm.eq(idx[0], tm.const(j)), lift_any(data[j]), r)
                return r
            if data.ndim == 2 and data.shape[0] * data.shape[1] <= 64:
                r = tm.ZERO
                for j in range(data.shape[0]):
                    for k in range(data.shape[1]):
                        c = tm.and_(tm.eq(idx[0], tm.const(j)), tm.eq(idx[1], tm.const(k)))
                        r = tm.ite(c, lift_any(data[j, k]), r)
                return r
            raise Unsupported('symbolic index into a concrete table')
        return SArr(dims, f)
    return None


def lift_any(x):
    if isinstance(x, SBool):
        return x.t
    t = lift(x)
    if t is None:
        raise Unsupported('array element %r' % (x,))
    return t


def arr_map(g, xs, kind='R'):
    """Elementwise operation with numpy broadcasting over SArr / scalars / concrete arrays."""
    arrs = []
    for x in xs:
        a = to_arr(x)
        if a is None:
            if isinstance(x, SBool):
                arrs.append(x.t)
                continue
            t = lift(x)
            if t is None:
                if isinstance(x, (list, tuple)):
                    a = to_arr(rnp.array(x, dtype=object))
                    arrs.append(a)
                    continue
                raise Unsupported('operand %r in an array operation' % (x,))
            arrs.append(t)
        else:
            arrs.append(a)
    As = [a for a in arrs if isinstance(a, SArr)]
    masked = [a for a in As if a.mask is not None]
    if masked:
        m = masked[0].mask
        n = masked[0].n
        for a in As:
            if a.ndim != 1 or a.mask is None or not same_mask(a.mask, m, n):
                raise Unsupported('operation between differently selected arrays')
        fs = [(a.f if isinstance(a, SArr) else (lambda i, t=a: t)) for a in arrs]
        return SArr((n,), lambda i: g(*[f(i) for f in fs]), kind, mask=m)
    # concatenations with identical partition are handled part by part
    cat = [a for a in As if a.parts is not None]
    if cat:
        ref = cat[0].parts
        ok = all(a.parts is not None and len(a.parts) == len(ref) and
                 all(same_dim(p.n, q.n) for p, q in zip(a.parts, ref)) for a in As)
        if ok:
            ps = [arr_map(g, [(a.parts[k] if isinstance(a, SArr) else SReal(a) if not tm.is_bool(a) else SBool(a))
                              for a in arrs], kind) for k in range(len(ref))]
            return concat(ps)
    nd = max(a.ndim for a in As)
    shape = [None] * nd
    maps = []
    for a in arrs:
        if not isinstance(a, SArr):
            maps.append(None)
            continue
        off = nd - a.ndim
        use = []
        for d in range(a.ndim):
            dim = a.shape_t[d]
            cur = shape[off + d]
            if cur is None or cur is tm.ONE:
                shape[off + d] = dim
        maps.append(off)
    one = {tm.ONE}
    for a in arrs:
        if isinstance(a, SArr):
            off = nd - a.ndim
            for d in range(a.ndim):
                dim, cur = a.shape_t[d], shape[off + d]
                if dim in one or dim is cur or same_dim(dim, cur):
                    continue
                if eng().branch(tm.eq(dim, cur)):
                    continue
                if eng().branch(tm.eq(dim, tm.ONE)):
                    one.add(dim)
                    continue
                if cur in one or eng().branch(tm.eq(cur, tm.ONE)):
                    one.add(cur)
                    shape[off + d] = dim
                    continue
                raise ValueError('operands could not be broadcast together')
    fs = []
    for a, off in zip(arrs, maps):
        if off is None:
            fs.append(lambda idx, t=a: t)
        else:
            ones = [a.shape_t[d] in one and shape[off + d] not in one for d in range(a.ndim)]
            fs.append(lambda idx, a=a, fa=a.f, off=off, ones=ones: fa(*[tm.ZERO if o else i
                                                                        for o, i in zip(ones, idx[off:])]))
    return SArr(shape, lambda *idx: g(*[f(idx) for f in fs]), kind)


def concat(parts):
    parts = [p for p in parts]
    flat = []
    for p in parts:
        flat.extend(p.parts if p.parts is not None else [p])
    tot = tm.ZERO
    offs = []
    for p in flat:
        offs.append(tot)
        tot = tm.add(tot, p.n)

    def f(i):
        r = flat[-1].f(tm.sub(i, offs[-1]))
        for k in range(len(flat) - 2, -1, -1):
            r = tm.ite(tm.lt(i, offs[k + 1]), flat[k].f(tm.sub(i, offs[k])), r)
        return r
    if any(p.mask is not None for p in flat):
        raise Unsupported('concatenation of masked selections')
    return SArr((tot,), f, flat[0].kind, parts=flat)


# -- reductions --------------------------------------------------------------------------------------------------
def rt(t):
    return tm.ite(t, tm.ONE, tm.ZERO) if tm.is_bool(t) else t


def axsum(n, g):
    """sum of g over one axis of length n: expanded when n is a small constant, nested when the axis is the product
    of two merged axes"""
    if n.op == 'const' and n.args[0] <= 6:
        r = tm.ZERO
        for k in range(int(n.args[0])):
            r = tm.add(r, g(tm.const(k)))
        return r
    fd = eng().flat_dims.get(n)
    if fd is not None:
        w, s = fd
        return axsum(w, lambda i: axsum(s, lambda j: g(flat_index(i, j, s))))
    return tm.ssum(n, g)


def flat_index(i, j, s):
    k = tm.add(tm.mul(i, s), j)
    eng().flat_idx[k] = (i, j, s)
    return k


def unflatten(k, s):
    got = eng().flat_idx.get(k)
    if got is not None and got[2] is s:
        return got[0], got[1]
    q = tm.fn('floor', tm.div(k, s))
    return q, tm.sub(k, tm.mul(q, s))


def asum(a, axis=None):
    if isinstance(a, SArr):
        if a.ndim == 1:
            if axis not in (None, 0, -1):
                raise Unsupported('axis')
            if a.parts is not None:
                r = tm.ZERO
                for p in a.parts:
                    r = tm.add(r, asum(p).t)
                return SReal(r, True)
            f, m = a.f, a.mask
            if a.kind == 'B':
                return SReal(tm.count(a.n, (lambda i: tm.and_(m(i), f(i))) if m else f), True)
            if m is not None:
                return SReal(tm.ssum(a.n, lambda i: tm.ite(m(i), rt(f(i)), tm.ZERO)), True)
            return SReal(axsum(a.n, lambda i: rt(f(i))), True)
        f = a.f
        if axis is None:
            def go(d, idx):
                if d == a.ndim:
                    return rt(f(*idx))
                return axsum(a.shape_t[d], lambda i: go(d + 1, idx + [i]))
            return SReal(go(0, []), True)
        if isinstance(axis, int) and -a.ndim <= axis < a.ndim:
            ax = axis % a.ndim
            n = a.shape_t[ax]
            return SArr(a.shape_t[:ax] + a.shape_t[ax + 1:],
                        lambda *ix: axsum(n, lambda j: rt(f(*(ix[:ax] + (j,) + ix[ax:])))))
    raise Unsupported('sum')


def asize(a):
    r = tm.ONE
    for d in a.shape_t:
        r = tm.mul(r, d)
    return r


def amean(a, axis=None):
    s = asum(a, axis)
    if a.ndim == 1:
        return SReal(tm.div(s.t, a.length_t()), True)
    if axis is None:
        return SReal(tm.div(s.t, asize(a)), True)
    return s / SReal(a.shape_t[axis])


def avar(a, axis=None, ddof=0):
    m = amean(a, axis)
    if a.ndim > 1 and axis is not None:
        ax = axis % a.ndim
        m = SArr(m.shape_t[:ax] + (tm.ONE,) + m.shape_t[ax:], lambda *ix, f=m.f: f(*(ix[:ax] + ix[ax + 1:])))
        n = a.shape_t[ax]
        return asum((a - m) ** 2, axis) / SReal(tm.sub(n, tm.const(ddof)))
    dev = (a - m) ** 2
    n = a.length_t() if a.ndim == 1 else asize(a)
    return SReal(tm.div(asum(dev).t, tm.sub(n, tm.const(ddof))), True)


def dstack(xs):
    """list of matrices, or of 3-D arrays (joined along the last axis)"""
    xs = [to_arr(x) for x in xs]
    if any(x.ndim != xs[0].ndim or x.ndim not in (2, 3) or x.mask is not None for x in xs):
        raise Unsupported('dstack')
    for x in xs[1:]:
        for d in (0, 1):
            if not same_dim(x.shape_t[d], xs[0].shape_t[d]):
                raise Unsupported('dstack of different shapes')
    fs = [x.f for x in xs]
    if xs[0].ndim == 2:
        def f(i, j, c):
            r = fs[-1](i, j)
            for q in range(len(fs) - 2, -1, -1):
                r = tm.ite(tm.eq(c, tm.const(q)), fs[q](i, j), r)
            return r
        return SArr(xs[0].shape_t + (tm.const(len(xs)),), f, xs[0].kind)
    offs, tot = [], tm.ZERO
    for x in xs:
        offs.append(tot)
        tot = tm.add(tot, x.shape_t[2])

    def f(i, j, k):
        r = fs[-1](i, j, tm.sub(k, offs[-1]))
        for q in range(len(fs) - 2, -1, -1):
            r = tm.ite(tm.lt(k, offs[q + 1]), fs[q](i, j, tm.sub(k, offs[q])), r)
        return r
    return SArr(xs[0].shape_t[:2] + (tot,), f, xs[0].kind)


def swapaxes(a, p, q):
    perm = list(range(a.ndim))
    perm[p], perm[q] = perm[q], perm[p]
    return permute(a, perm)


def permute(a, perm):
    f = a.f
    perm = [p % a.ndim for p in perm]

    def g(*ix):
        full = [None] * len(ix)
        for new, old in enumerate(perm):
            full[old] = ix[new]
        return f(*full)
    return SArr([a.shape_t[p] for p in perm], g, a.kind, view=True)


def ssqrt(x):
    if isinstance(x, SArr):
        return arr_map(lambda a: tm.power(a, tm.const(Fraction(1, 2))), [x])
    return SReal(tm.power(lift(x), tm.const(Fraction(1, 2))), True)


def aany(a):
    f, m = a.f, a.mask
    if a.ndim == 2:
        return sb(tm.exists(a.shape_t[0], lambda i: tm.exists(a.shape_t[1], lambda j: tobool(f(i, j)))))
    return sb(tm.exists(a.n, lambda i: tm.and_(m(i), tobool(f(i))) if m else tobool(f(i))))


def aall(a):
    f, m = a.f, a.mask
    if a.ndim == 2:
        return sb(tm.forall(a.shape_t[0], lambda i: tm.forall(a.shape_t[1], lambda j: tobool(f(i, j)))))
    return sb(tm.forall(a.n, lambda i: tm.implies(m(i), tobool(f(i))) if m else tobool(f(i))))


def lam_of(a):
    """array as a lambda term (argument of an opaque operation)"""
    vs = [tm.fresh('l', True) for _ in a.shape_t]
    if a.mask is not None:
        raise Unsupported('masked selection as argument of an opaque operation')
    body = rt(a.f(*vs))
    return tm.lam(vs, body)


def aminmax(name, a, axis=None):
    if axis is not None and a.ndim > 1:
        raise Unsupported('axis min/max')
    f, m = a.f, a.mask
    v = tm.app('arr' + name, *([d for d in a.shape_t] + [lam_of(SArr(a.shape_t, (lambda i: tm.ite(m(i), f(i), tm.ZERO)) if m else f)),
                                                         (tm.lam([q], tm.ite(m(q), tm.ONE, tm.ZERO)) if (m and [q := tm.fresh('l', True)]) else 'nomask')]))
    eng().arr_extreme(name, v, a)
    return SReal(v, True)


def adot(a, b):
    a, b = to_arr(a), to_arr(b)
    f, g = a.f, b.f
    if a.ndim == 1 and b.ndim == 1:
        if not same_dim(a.n, b.n):
            raise Unsupported('dot shapes')
        return SReal(tm.ssum(a.n, lambda i: tm.mul(f(i), g(i))), True)
    if a.ndim == 2 and b.ndim == 2:
        if not same_dim(a.shape_t[1], b.shape_t[0]):
            raise Unsupported('dot shapes')
        n = a.shape_t[1]
        return SArr((a.shape_t[0], b.shape_t[1]), lambda i, k: tm.ssum(n, lambda j: tm.mul(f(i, j), g(j, k))))
    if a.ndim == 2 and b.ndim == 1:
        n = a.shape_t[1]
        return SArr((a.shape_t[0],), lambda i: tm.ssum(n, lambda j: tm.mul(f(i, j), g(j))))
    if a.ndim == 1 and b.ndim == 2:
        n = a.shape_t[0]
        return SArr((b.shape_t[1],), lambda k: tm.ssum(n, lambda j: tm.mul(f(j), g(j, k))))
    raise Unsupported('dot')


class SRange(object):
    """range with a symbolic bound"""
    def __init__(self, a, b, step=1):
        self.a, self.b, self.step = a, b, step

    def __iter__(self):
        raise Unsupported('iteration over a symbolic range outside an instrumented loop')

    def __len__(self):
        raise Unsupported('len of symbolic range')
