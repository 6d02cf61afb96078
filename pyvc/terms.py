"""Hash-consed term DAG of the verification language (mathematical reals, integers, booleans).

Nothing is normalised here beyond constant folding; the normal form lives in nf.py.
"""
import math
from fractions import Fraction

F0, F1 = Fraction(0), Fraction(1)
_table = {}
_counter = [0]


class T(object):
    __slots__ = ('op', 'args', 'tid', 'vs', '__weakref__')

    def __repr__(self):
        return show(self)


BOOL_OPS = {'lt', 'le', 'eq', 'and', 'or', 'not', 'true', 'false', 'bvar', 'bsel', 'bapp', 'all', 'any'}


def mk(op, *args):
    key = (op,) + tuple(('t', a.tid) if isinstance(a, T) else a for a in args)
    t = _table.get(key)
    if t is None:
        t = T()
        t.op = op
        t.args = args
        _counter[0] += 1
        t.tid = _counter[0]
        vs = frozenset()
        if op in ('var', 'bvar'):
            vs = frozenset([args[0]])
        else:
            for a in args:
                if isinstance(a, T):
                    vs = vs | a.vs
            if op in ('sum', 'all', 'any', 'count', 'lam'):
                bound = args[0]
                vs = vs - (bound.vs if isinstance(bound, T) else frozenset())
        t.vs = vs
        _table[key] = t
    return t


def is_bool(t):
    return t.op in BOOL_OPS


def const(x):
    if isinstance(x, T):
        return x
    if isinstance(x, bool):
        return const(int(x))
    if isinstance(x, int):
        return mk('const', Fraction(x))
    if isinstance(x, Fraction):
        return mk('const', x)
    raise TypeError('const %r' % (x,))


_pi_multiples = {}
for _n in range(-48, 49):
    for _d in (1, 2, 3, 4, 6, 8, 12, 180):
        if _n:
            _pi_multiples.setdefault(float(math.pi * _n / _d), Fraction(_n, _d))
for _n in range(-16, 17):
    if _n:
        _pi_multiples.setdefault(_n * math.pi, Fraction(_n))


def from_float(x):
    """A float literal as the real number its decimal text denotes; multiples of np.pi are recognised."""
    x = float(x)
    if x != x or x in (math.inf, -math.inf):
        raise ValueError('non-finite constant in a real term')
    q = _pi_multiples.get(x)
    if q is not None:
        return mul(const(q), PI)
    if x == int(x) and abs(x) < 2**53:
        return const(int(x))
    q = Fraction(repr(x))
    if q.denominator > 10**6:
        s = q.limit_denominator(99)
        if float(s) == x:       # 1/3., 2/3. and the like denote the rational
            return const(s)
    return const(q)


def var(name, integer=False):
    return mk('ivar' if integer else 'var', name) if False else mk('var', name, integer)


def bvar(name):
    return mk('bvar', name)


TRUE = mk('true')
FALSE = mk('false')
PI = mk('pi')
ZERO = const(0)
ONE = const(1)
_fresh = [0]


def fresh(prefix='v', integer=False):
    _fresh[0] += 1
    return var('%s!%d' % (prefix, _fresh[0]), integer)


def isc(t, v=None):
    return t.op == 'const' and (v is None or t.args[0] == v)


def add(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] + b.args[0])
    if isc(a, 0):
        return b
    if isc(b, 0):
        return a
    return mk('add', a, b)


def neg(a):
    return mul(const(-1), a)


def sub(a, b):
    if a is b:
        return ZERO
    return add(a, neg(b))


def mul(a, b):
    if a.op == 'const' and b.op == 'const':
        return const(a.args[0] * b.args[0])
    if isc(a, 0) or isc(b, 0):
        return ZERO
    if isc(a, 1):
        return b
    if isc(b, 1):
        return a
    return mk('mul', a, b)


def div(a, b):
    if isc(b, 1):
        return a
    if b.op == 'const' and b.args[0] != 0:
        return mul(const(1 / b.args[0]), a)
    return mk('div', a, b)


def power(a, b):
    if b.op == 'const':
        e = b.args[0]
        if e == 0:
            return ONE
        if e == 1:
            return a
        if a.op == 'const' and e.denominator == 1 and (a.args[0] != 0 or e > 0):
            return const(a.args[0] ** int(e))
    return mk('pow', a, b)


def fn(name, *args):
    return mk('fn', name, *args)


def sel(arr, *idx):
    return mk('sel', arr, *idx)


def app(name, *args):
    return mk('app', name, *args)


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    return mk('ite', c, a, b)


def lt(a, b):
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] < b.args[0] else FALSE
    if a is b:
        return FALSE
    return mk('lt', a, b)


def le(a, b):
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] <= b.args[0] else FALSE
    if a is b:
        return TRUE
    return mk('le', a, b)


def eq(a, b):
    if a is b:
        return TRUE
    if is_bool(a) or is_bool(b):
        return iff(a, b)
    if a.op == 'const' and b.op == 'const':
        return TRUE if a.args[0] == b.args[0] else FALSE
    return mk('eq', a, b)


def iff(a, b):
    return and_(implies(a, b), implies(b, a))


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == 'not':
        return a.args[0]
    return mk('not', a)


def and_(*xs):
    out = []
    for x in xs:
        if x is FALSE:
            return FALSE
        if x is TRUE:
            continue
        if x.op == 'and':
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return TRUE
    if len(out) == 1:
        return out[0]
    return mk('and', *out)


def or_(*xs):
    out = []
    for x in xs:
        if x is TRUE:
            return TRUE
        if x is FALSE:
            continue
        if x.op == 'or':
            out.extend(x.args)
        else:
            out.append(x)
    out = list(dict.fromkeys(out))
    if not out:
        return FALSE
    if len(out) == 1:
        return out[0]
    return mk('or', *out)


def implies(a, b):
    return or_(not_(a), b)


def ssum(n, f, name='i'):
    """Sum_{0<=i<n} f(i)."""
    i = fresh(name, True)
    body = f(i)
    if isc(body, 0):
        return ZERO
    return mk('sum', i, n, body)


def count(n, f):
    i = fresh('c', True)
    return mk('count', i, n, f(i))


def forall(n, f):
    i = fresh('q', True)
    body = f(i)
    if body is TRUE:
        return TRUE
    return mk('all', i, n, body)


def exists(n, f):
    i = fresh('q', True)
    body = f(i)
    if body is FALSE:
        return FALSE
    return mk('any', i, n, body)


def lam(vs, body):
    """An anonymous array (used as argument of opaque matrix operations)."""
    r = body
    for v in reversed(vs):
        r = mk('lam', v, r)
    return r


_subst_cache = {}


def subst(t, m):
    """Replace terms by terms (m: dict T->T). Bound variables are always fresh, so no capture."""
    cache = {}

    def go(x):
        r = m.get(x)
        if r is not None:
            return r
        if not any(isinstance(a, T) for a in x.args):
            return x
        r = cache.get(x)
        if r is not None:
            return r
        new = tuple(go(a) if isinstance(a, T) else a for a in x.args)
        if all(n is a for n, a in zip(new, x.args)):
            r = x
        else:
            r = rebuild(x.op, new)
        cache[x] = r
        return r
    return go(t)


def rebuild(op, args):
    if op == 'add':
        return add(*args)
    if op == 'mul':
        return mul(*args)
    if op == 'div':
        return div(*args)
    if op == 'pow':
        return power(*args)
    if op == 'ite':
        return ite(*args)
    if op == 'lt':
        return lt(*args)
    if op == 'le':
        return le(*args)
    if op == 'eq':
        return eq(*args)
    if op == 'and':
        return and_(*args)
    if op == 'or':
        return or_(*args)
    if op == 'not':
        return not_(*args)
    return mk(op, *args)


def subterms(t, seen=None, into_binders=True):
    if seen is None:
        seen = {}
    stack = [t]
    while stack:
        x = stack.pop()
        if x in seen:
            continue
        seen[x] = True
        for a in x.args:
            if isinstance(a, T):
                stack.append(a)
    return seen


def show(t, depth=0):
    if depth > 14:
        return '...'
    d = depth + 1
    o, a = t.op, t.args
    if o == 'const':
        return str(a[0])
    if o in ('var', 'bvar'):
        return a[0]
    if o == 'pi':
        return 'pi'
    if o == 'add':
        return '(%s + %s)' % (show(a[0], d), show(a[1], d))
    if o == 'mul':
        return '%s*%s' % (show(a[0], d), show(a[1], d))
    if o == 'div':
        return '(%s)/(%s)' % (show(a[0], d), show(a[1], d))
    if o == 'pow':
        return '(%s)**(%s)' % (show(a[0], d), show(a[1], d))
    if o in ('fn', 'sel', 'app', 'bsel', 'bapp'):
        return '%s(%s)' % (a[0], ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a[1:]))
    if o == 'ite':
        return 'ite(%s, %s, %s)' % tuple(show(x, d) for x in a)
    if o in ('lt', 'le', 'eq'):
        return '%s %s %s' % (show(a[0], d), {'lt': '<', 'le': '<=', 'eq': '=='}[o], show(a[1], d))
    if o in ('sum', 'count', 'all', 'any'):
        return '%s[%s<%s](%s)' % (o, show(a[0], d), show(a[1], d), show(a[2], d))
    return '%s(%s)' % (o, ', '.join(show(x, d) if isinstance(x, T) else str(x) for x in a))
