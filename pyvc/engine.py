"""Path exploration by deterministic re-execution, proof obligations, and the symbolic harness interface."""
import copy
from fractions import Fraction
import math
import contextlib
import os
import sys
import time
import traceback

import numpy as rnp

from . import terms as tm
from .terms import T
from . import nf
from . import sym
from .sym import SReal, SBool, SArr, Unsupported, PathEnd, lift, sb

REPO = os.environ.get('VP_REPO', '/repo')


class Restart(BaseException):
    """the exploration strategy of a loop changed: start the harness again"""


class Obl(object):
    __slots__ = ('name', 'status', 'detail', 'pc', 'secs', 'backend')

    def as_dict(self):
        return {k: getattr(self, k) for k in self.__slots__}


class Engine(object):
    def __init__(self, bounded=False, budget=120.0, max_paths=4000, z3_timeout=4000, sizes=(0, 1, 2, 3)):
        self.bounded = bounded
        self.budget = budget
        self.max_paths = max_paths
        self.zt = z3_timeout
        self.sizes = sizes
        self.obls = []
        self.seen = {}
        self.assumed = {}
        self.paths = 0
        self.goal_cache = {}
        self.havoc_sites = set()
        self.loops_used = set()
        self.map_loops = []
        self.refs = []
        self.texts = {}
        self.rounding = False
        self.lazy = False
        self.loop_specs = {}
        self.perms = []
        self.flat_dims = {}
        self.flat_idx = {}
        self.touched = {}
        self.restore = []
        self.covers = set()
        self.failing = None

    # -- exploration ------------------------------------------------------------------------------------------
    def explore(self, harness, vcclass):
        self.t0 = time.time()
        sym.ENGINE[0] = self
        while True:
            try:
                self._explore(harness, vcclass)
                return
            except Restart:
                self.obls = []
                self.seen = {}
                self.paths = 0
                continue

    def _explore(self, harness, vcclass):
        self.stack = [[]]
        while self.stack:
            prefix = self.stack.pop()
            self.paths += 1
            if self.paths > self.max_paths:
                raise Unsupported('more than %d paths' % self.max_paths)
            self._run(harness, vcclass, prefix)

    def _run(self, harness, vcclass, prefix):
        tm._fresh[0] = 0
        self.events = list(prefix)
        self.pos = 0
        self.facts = []
        self.elem = {}
        self.ctx_ = None
        self.ghost = {}
        self.loop_state = {}
        self.index_terms = []
        self.map_loops = []
        self.lazy = False
        self.flat_dims = {}
        self.flat_idx = {}
        self.touched = {}
        self.refs, self.texts, self.rounding = [], {}, False
        vc = vcclass(self)
        self.vc = vc
        try:
            harness(vc)
        except PathEnd:
            pass
        except (Unsupported, Restart):
            raise
        except nf.TooHard as e:
            raise Unsupported('normal form: %s' % e)
        except RecursionError:
            raise Unsupported('recursion limit')
        except Exception as e:
            if os.environ.get('VP_DEBUG'):
                traceback.print_exc()
            c, seen = e, set()
            while c is not None and id(c) not in seen:
                seen.add(id(c))
                c = c.__cause__ or c.__context__
                if isinstance(c, (Unsupported, PathEnd, Restart)):
                    raise c
            if self.in_repo(e):
                if self.ctx().feasible():
                    self.record('no unexpected exception', False,
                                'raised %s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-4)))
            else:
                raise Unsupported('%s: %s at %s' % (type(e).__name__, e, traceback.format_exc(limit=-3)))
        finally:
            for undo in reversed(self.restore):
                undo()
            self.restore = []

    def in_repo(self, e):
        """the exception comes from a statement of the code under test itself (not from the symbolic layer)"""
        tb = e.__traceback__
        while tb.tb_next:
            tb = tb.tb_next
        fn = tb.tb_frame.f_code.co_filename
        s = str(e)
        if isinstance(e, UnboundLocalError) and self.havoc_sites:
            return False
        if any(x in s for x in ('SReal', 'SArr', 'SBool', 'SRange', 'SymFrame', 'numpy.ufunc', 'SymNP')):
            return False
        if isinstance(e, IndexError) and ('arrays used as indices' in s or 'are valid indices' in s):
            return False
        if isinstance(e, (TypeError, AttributeError)) and 'object' in s and 'NoneType' not in s:
            return False
        return fn.startswith(os.path.join(REPO, 'radvel'))

    # -- facts ------------------------------------------------------------------------------------------------
    def ctx(self):
        if time.time() - self.t0 > self.budget:
            raise Unsupported('time budget of %d s used up' % self.budget)
        if self.ctx_ is None:
            self.ctx_ = nf.Ctx(self.facts, self.zt, self.elem)
            self.ctx_.deadline = self.t0 + self.budget + 5
            self.ctx_.index_terms = list(self.index_terms)
        return self.ctx_

    def assume(self, t):
        if t is tm.TRUE or t is True:
            return
        if t is tm.FALSE:
            raise PathEnd()
        self.facts.append(t)
        self.ctx_ = None
        self.count_facts(t)

    def count_facts(self, t):
        """a count that is not positive has no true element, a positive one has some"""
        if t.op == 'and':
            for u in t.args:
                self.count_facts(u)
            return
        neg = t.op == 'not'
        u = t.args[0] if neg else t
        if u.op not in ('lt', 'le', 'eq'):
            return
        a, b = u.args
        x = pos = None
        if u.op == 'eq' and tm.ZERO in (a, b):
            x, pos = (b if a is tm.ZERO else a), neg
        elif u.op in ('lt', 'le') and a.op == 'const' and b.op != 'const':
            # 0 < x, 1 <= x
            if a.args[0] == (0 if u.op == 'lt' else 1):
                x, pos = b, not neg
        elif u.op in ('lt', 'le') and b.op == 'const' and a.op != 'const':
            # x < 1, x <= 0
            if b.args[0] == (1 if u.op == 'lt' else 0):
                x, pos = a, neg
        if x is None:
            return
        cs = [x] if x.op == 'count' else [z for f in self.facts if f.op == 'eq' and x in f.args for z in f.args
                                          if z.op == 'count']
        for c in cs:
            i, n, body = c.args
            if pos:
                k = tm.fresh('some', True)
                self.assume(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, n), tm.subst(body, {i: k})))
                self.add_index(k)
            else:
                self.assume(tm.forall(n, lambda j: tm.not_(tm.subst(body, {i: j}))))

    def add_index(self, t):
        if t not in self.index_terms:
            self.index_terms.append(t)
            if self.ctx_ is not None:
                self.ctx_.index_terms = list(self.index_terms)

    def note(self, what):
        self.assumed[what] = self.assumed.get(what, 0) + 1

    # -- decisions --------------------------------------------------------------------------------------------
    def branch(self, t, why=None):
        if t is tm.TRUE:
            return True
        if t is tm.FALSE:
            return False
        if self.pos < len(self.events):
            kind, r = self.events[self.pos]
            self.pos += 1
        else:
            n = tm.not_(t)
            try:
                if any(f is t for f in self.facts):
                    d = True
                elif any(f is n for f in self.facts):
                    d = False
                elif self.lazy:
                    d = True if self.ctx().quick(t) else False if self.ctx().quick(tm.not_(t)) else None
                else:
                    d = self.ctx().decide(t)
            except nf.TooHard:
                d = None
            if d is not None:
                kind, r = 'forced', d
            else:
                kind, r = 'fork', True
                self.stack.append(self.events[:self.pos] + [('fork', False)])
            self.events.append((kind, r))
            self.pos += 1
            if kind == 'fork':
                for L in self.map_loops:
                    if t.vs & L:
                        raise Unsupported('branch on an element inside a summarised loop')
        if kind == 'fork':
            self.assume(t if r else tm.not_(t))
            if self.pos == len(self.events):
                # is this side possible at all?
                if not self.lazy and not self.ctx().feasible():
                    raise PathEnd()
        return r

    def choose(self, n):
        if self.pos < len(self.events):
            kind, r = self.events[self.pos]
            self.pos += 1
            return r
        for k in range(n - 1, 0, -1):
            self.stack.append(self.events[:self.pos] + [('choice', k)])
        self.events.append(('choice', 0))
        self.pos += 1
        return 0

    def prove_now(self, goal, index_terms=()):
        """an internal proof attempt (not an obligation)"""
        c = self.ctx()
        old = list(c._index_terms)
        c.index_terms = old + list(index_terms)
        try:
            return c.prove(goal)
        except nf.TooHard:
            return False
        finally:
            c.index_terms = old

    # -- hooks used by the symbolic values --------------------------------------------------------------------
    def canon(self, x):
        """a registered array that is provably equal to x element by element, or x"""
        for r in self.refs:
            if x is r:
                return x
            if x.ndim != r.ndim or x.n is not r.n or x.mask is not None:
                continue
            i = tm.fresh('k', True)
            old, oldi, oldc = self.facts, list(self.index_terms), self.ctx_
            self.facts, self.ctx_ = old + [tm.le(tm.ZERO, i), tm.lt(i, x.n)], None
            self.add_index(i)
            try:
                same = self.prove_now(tm.eq(x.f(i), r.f(i)))
            finally:
                self.facts, self.index_terms, self.ctx_ = old, oldi, oldc
            if same:
                return r
        return x

    def note_div(self, y):
        if y.op == 'const':
            return
        self.note('divisors that are not constants are assumed non-zero (real arithmetic)')

    def note_index(self, k, n):
        if k.op == 'const' and n.op == 'const' and not (0 <= k.args[0] < n.args[0]):
            raise IndexError('index out of range')

    def is_iter(self, t):
        """t is the index of the innermost summarised loop"""
        return bool(self.map_loops) and t.op == 'var' and t.vs == self.map_loops[-1]

    def mutated(self, arr):
        arr.version = getattr(arr, 'version', 0) + 1

    def arr_extreme(self, name, v, a):
        f, m = a.f, a.mask
        if a.ndim == 1:
            self.assume(tm.forall(a.n, lambda i: tm.implies(m(i) if m else tm.TRUE,
                                                            tm.le(f(i), v) if name == 'max' else tm.le(v, f(i)))))
            k = tm.fresh('arg' + name, True)
            self.assume(tm.and_(tm.le(tm.ZERO, k), tm.lt(k, a.n), tm.eq(v, f(k))))
            if m:
                self.assume(m(k))
            self.add_index(k)

    # -- obligations ------------------------------------------------------------------------------------------
    def record(self, name, ok, detail='', secs=0.0, backend='nf'):
        o = Obl()
        o.name, o.status, o.detail, o.secs, o.backend = name, 'discharged' if ok else 'failed', detail, secs, backend
        o.pc = [str(f)[:200] for f in self.facts[-12:]] if not ok else []
        self.obls.append(o)
        if not ok and self.failing is None:
            self.failing = o
        return ok

    def oblige(self, name, goal):
        if goal is True or goal is tm.TRUE or (isinstance(goal, rnp.bool_) and bool(goal)):
            return self.record(name, True, backend='evaluation')
        if isinstance(goal, SBool):
            goal = goal.t
        if isinstance(goal, rnp.bool_):
            goal = bool(goal)
        if goal is False:
            goal = tm.FALSE
        key = (goal, tuple(f.tid for f in self.facts))
        t0 = time.time()
        z0 = nf.STATS['z3_calls']
        if key in self.goal_cache:
            ok = self.goal_cache[key]
        else:
            c = self.ctx()
            if goal is tm.FALSE:
                ok = not c.feasible()
            else:
                try:
                    ok = c.prove(goal)
                except nf.TooHard as e:
                    raise Unsupported('normal form: %s' % e)
            self.goal_cache[key] = ok
        detail = ''
        if not ok:
            detail = 'cannot prove: %s' % str(goal)[:1500]
        return self.record(name, bool(ok), detail, time.time() - t0,
                           'z3' if nf.STATS['z3_calls'] > z0 else 'nf')


# ---------------------------------------------------------------------------------------------------------------
class SymMath(object):
    """specification-level mathematics on symbolic values"""
    symbolic = True
    pi = SReal(tm.PI)

    def _f(name):
        def f(self, *xs):
            return SReal(tm.fn(name, *[lift(x) for x in xs]))
        return f
    sin, cos, tan, exp = _f('sin'), _f('cos'), _f('tan'), _f('exp')
    log, floor, atan, atan2 = _f('log'), _f('floor'), _f('atan'), _f('atan2')

    def sqrt(self, x):
        return SReal(tm.power(lift(x), tm.const(Fraction(1, 2))))

    def rpow(self, x, p, q=1):
        return SReal(tm.power(lift(x), tm.const(Fraction(p, q))))

    def abs(self, x):
        return abs(SReal(lift(x)))

    def ite(self, c, a, b):
        if isinstance(c, SBool):
            return SReal(tm.ite(c.t, lift(a), lift(b)))
        return a if c else b

    def and_(self, *cs):
        return sb(tm.and_(*[tobt(c) for c in cs]))

    def or_(self, *cs):
        return sb(tm.or_(*[tobt(c) for c in cs]))

    def not_(self, c):
        return sb(tm.not_(tobt(c)))

    def implies(self, a, b):
        return sb(tm.implies(tobt(a), tobt(b)))

    def le(self, a, b):
        return sb(tm.le(lift(a), lift(b)))

    def lt(self, a, b):
        return sb(tm.lt(lift(a), lift(b)))

    def eq(self, a, b, tol=None):
        return sb(tm.eq(lift(a), lift(b)))

    def total(self, n, f):
        if isinstance(n, int):
            r = 0
            for i in range(n):
                r = r + f(i)
            return r
        return SReal(tm.ssum(lift(n), lambda i: lift(f(SReal(i)))))

    def count(self, n, f):
        if isinstance(n, int):
            r = 0
            for i in range(n):
                r = r + SReal(tm.ite(tobt(f(i)), tm.ONE, tm.ZERO))
            return r
        return SReal(tm.count(lift(n), lambda i: tobt(f(SReal(i)))))

    def forall(self, n, f):
        if isinstance(n, int):
            return self.and_(*[f(i) for i in range(n)])
        return sb(tm.forall(lift(n), lambda i: tobt(f(SReal(i)))))

    def is_int(self, x):
        return sb(tm.eq(lift(x), tm.fn('floor', lift(x))))

    def round(self, x, nd=0):
        from . import npshim
        return round(x, nd) if isinstance(x, float) else npshim.np_round(SReal(lift(x)), nd)

    def isneginf(self, x):
        return (not isinstance(x, (SReal, SBool))) and x == -math.inf


def tobt(c):
    if isinstance(c, SBool):
        return c.t
    if isinstance(c, (bool, rnp.bool_)):
        return tm.TRUE if c else tm.FALSE
    if isinstance(c, T):
        return c
    raise Unsupported('boolean %r' % (c,))


class SymVC(object):
    symbolic = True

    def __deepcopy__(self, memo):
        return self

    def __init__(self, engine):
        self.e = engine
        self.m = SymMath()
        self.bounded = engine.bounded
        self._snaps = []

    # -- inputs
    def real(self, name, ge=None, gt=None, le=None, lt=None, gen=None, np=False, ne=None, integer=False):
        v = tm.var(name, integer)
        for b, mk in ((ge, lambda b: tm.le(b, v)), (gt, lambda b: tm.lt(b, v)), (le, lambda b: tm.le(v, b)),
                      (lt, lambda b: tm.lt(v, b)), (ne, lambda b: tm.not_(tm.eq(v, b)))):
            if b is not None:
                self.e.assume(mk(lift(b)))
        if integer:
            self.e.add_index(v)
        return SReal(v, np)

    def at(self, k):
        """use what is known about all elements for element k"""
        self.e.add_index(lift(k))

    def flag(self, name):
        return bool(self.choice(name, [False, True]))

    def choice(self, name, options):
        options = list(options)
        k = self.e.choose(len(options))
        return options[k]

    def size(self, name, min=0, sizes=None):
        if self.e.bounded:
            opts = [s for s in (sizes or self.e.sizes) if s >= min]
            return self.choice(name, opts)
        v = tm.var(name, True)
        self.e.assume(tm.le(tm.const(min), v))
        return SReal(v)

    def arr(self, name, n, ge=None, gt=None, le=None, lt=None, gen=None, sorted=False, integer=False):
        def facts(t):
            r = []
            if ge is not None:
                r.append(tm.le(lift(ge), t))
            if gt is not None:
                r.append(tm.lt(lift(gt), t))
            if le is not None:
                r.append(tm.le(t, lift(le)))
            if lt is not None:
                r.append(tm.lt(t, lift(lt)))
            return r
        if isinstance(n, int):
            out = rnp.empty(n, dtype=object)
            for i in range(n):
                t = tm.var('%s[%d]' % (name, i), False)
                for f in facts(t):
                    self.e.assume(f)
                if sorted and i:
                    self.e.assume(tm.le(out[i - 1].t, t))
                out[i] = SReal(t, True)
            return out
        if sorted:
            raise Unsupported('sorted arrays of symbolic length')
        self.e.elem[name] = lambda *idx: facts(tm.sel(name, *idx))
        return SArr((lift(n),), lambda i: tm.sel(name, i))

    def matrix(self, name, n, k, **kw):
        if isinstance(n, int) and isinstance(k, int):
            out = rnp.empty((n, k), dtype=object)
            for i in range(n):
                r = self.arr('%s[%d]' % (name, i), k, **kw)
                for j in range(k):
                    out[i, j] = r[j]
            return out
        return SArr((lift(n), lift(k)), lambda i, j: tm.sel(name, i, j))

    def cube(self, name, a, b, c):
        """an arbitrary three-dimensional array"""
        if all(isinstance(d, int) for d in (a, b, c)):
            out = rnp.empty((a, b, c), dtype=object)
            for ix in rnp.ndindex(out.shape):
                out[ix] = SReal(tm.var('%s%s' % (name, list(ix))), True)
            return out
        return SArr((lift(a), lift(b), lift(c)), lambda i, j, k: tm.sel(name, i, j, k))

    def opaque(self, name, *args):
        """an arbitrary (uninterpreted) real function"""
        return SReal(tm.app(name, *[a if isinstance(a, str) else
                                    sym.lam_of(a) if isinstance(a, SArr) else lift(a) for a in args]), True)

    def opaque_arr(self, name, args, n):
        """an arbitrary function of args and a position"""
        ts = [a if isinstance(a, str) else sym.lam_of(a) if isinstance(a, SArr) else lift(a) for a in args]
        if isinstance(n, int):
            out = rnp.empty(n, dtype=object)
            for i in range(n):
                out[i] = SReal(tm.app(name, *(ts + [tm.const(i)])), True)
            return out
        return SArr((lift(n),), lambda i: tm.app(name, *(ts + [i])))

    def pointwise(self, f, n):
        """the vector of f(i)"""
        if isinstance(n, int):
            out = rnp.empty(n, dtype=object)
            for i in range(n):
                out[i] = f(i)
            return out
        return SArr((lift(n),), lambda i: lift(f(sym.intv(i))))

    def table(self, n, k, f):
        """the matrix of f(i, j)"""
        if isinstance(n, int) and isinstance(k, int):
            out = rnp.empty((n, k), dtype=object)
            for i in range(n):
                for j in range(k):
                    out[i, j] = f(i, j)
            return out
        return SArr((lift(n), lift(k)), lambda i, j: lift(f(sym.intv(i), sym.intv(j))))

    def opaque_distance(self):
        """from now on the distance of two points is an opaque function of them (returned)"""
        from . import npshim
        f = lambda a, b: tm.app('distance', lift(a), lift(b))
        npshim.DISTANCE[0] = f
        self.e.restore.append(lambda: npshim.DISTANCE.__setitem__(0, None))
        return lambda a, b: SReal(f(a, b), True)

    def loop(self, func, spec):
        """loop contract of the while loop of a function: spec.entry(state), spec.assume(state), spec.step(before, after,
        appended) for one arbitrary iteration; not used where the number of iterations is known"""
        self.e.loop_specs[func] = spec

    def count_interval(self, name, n, f, a, b, hint=None):
        """lemma: when f holds exactly on [a, b) within [0, n), the number of places where it holds is b - a"""
        i = tm.fresh('k', True)
        old, oldi = self.e.facts, list(self.e.index_terms)
        self.e.facts, self.e.ctx_ = old + [tm.le(tm.ZERO, i), tm.lt(i, lift(n))], None
        self.e.add_index(i)
        I = SReal(i)
        if hint is not None:
            hint(I)
        x = tobt(f(I))
        r = self.e.oblige(name, tm.or_(tm.not_(x), tobt(self.m.and_(I >= a, I < b))))
        r = self.e.oblige(name, tm.or_(x, tobt(self.m.not_(self.m.and_(I >= a, I < b))))) and r
        self.e.facts, self.e.index_terms, self.e.ctx_ = old, oldi, None
        r = self.prove(name + ' (range)', self.m.and_(a >= 0, a <= b, b <= n)) and r
        if r:
            self.e.assume(tm.eq(tm.count(lift(n), lambda j: tobt(f(SReal(j)))), tm.sub(lift(b), lift(a))))

    def prove_forall(self, name, n, f, hint=None):
        """f for all indices below n, with facts about the arbitrary index added by hint"""
        i = tm.fresh('k', True)
        old, oldi = self.e.facts, list(self.e.index_terms)
        self.e.facts, self.e.ctx_ = old + [tm.le(tm.ZERO, i), tm.lt(i, lift(n))], None
        self.e.add_index(i)
        if hint is not None:
            hint(SReal(i))
        self.e.oblige(name, tobt(f(SReal(i))))
        self.e.facts, self.e.index_terms, self.e.ctx_ = old, oldi, None

    def sorted_pair(self, arr, i, j):
        """x[argsort(x)] is in increasing order (contract of numpy.argsort)"""
        q = tm.fresh('q', True)
        if not any(arr.f(q) is x.f(p.f(q)) for x, p in self.e.perms):
            raise Unsupported('array not known to be sorted')
        a, b = lift(i), lift(j)
        self.e.assume(tm.implies(tm.and_(tm.le(tm.ZERO, a), tm.le(a, b), tm.lt(b, arr.n)), tm.le(arr.f(a), arr.f(b))))
        self.e.note('numpy.argsort sorts')

    def rounding(self):
        """use the contract of round (nearest multiple), not only that it is a function of its arguments"""
        self.e.rounding = True

    def text(self, x, like):
        """the decimal text of x has the exponent and the last digit of this one (only these are looked at)"""
        self.e.texts[lift(x)] = like

    def reference(self, arr):
        """statistics of an array that equals this one element by element are written as statistics of this one"""
        self.e.refs.append(arr)

    def sorted(self, arr):
        from . import npshim
        return arr[npshim.argsort(arr)] if isinstance(arr, SArr) else rnp.array(npshim.sort_values(list(arr)), dtype=object)

    def median(self, arr):
        from . import npshim
        return npshim.reduce_('median', arr)

    def mode(self, arr):
        """left edge of the fullest bin of a histogram"""
        from . import npshim
        return npshim.histogram(arr)[1][npshim.HistMode()]

    def labels(self, name, n, labels):
        """an array of labels, each occurring at least once"""
        if isinstance(n, int):
            raise Unsupported('labels of a concrete number of elements')
        self.e.assume(tm.le(tm.const(len(labels)), lift(n)))
        return sym.SLabels(name, lift(n), labels)

    def runs(self, rep):
        return [(str(v), SReal(n)) for v, n in sym.rep_of(rep).parts]

    def select(self, arr, labels, l):
        return arr[labels == l]

    def joined(self, arrs):
        from . import npshim
        return npshim.concatenate(arrs) if len(arrs) > 1 else arrs[0]

    def mark(self):
        return len(self.e.facts)

    @contextlib.contextmanager
    def forgetting(self, mark):
        """prove from the facts known at the mark only"""
        old = self.e.facts
        self.e.facts, self.e.ctx_ = old[:mark], None
        try:
            yield
        finally:
            self.e.facts, self.e.ctx_ = old, None

    def lazy_branches(self):
        """explore branches without asking the solver whether they are possible"""
        self.e.lazy = True

    def abstract_sign(self):
        """from now on numpy.sign is an unknown function (the contract holds for any)"""
        from . import npshim
        npshim.OPAQUE_SIGN[0] = True
        self.e.restore.append(lambda: npshim.OPAQUE_SIGN.__setitem__(0, False))

    def exp_rule(self, name, b):
        """rule: from the obligation b <= 0 conclude exp(b) <= 1"""
        if self.prove(name, self.m.le(b, 0)):
            self.assume(self.m.le(b, 0))
            self.assume(self.m.le(self.m.exp(b), 1))

    def solve(self, A, b):
        from . import npshim
        return npshim.cho_solve(('cho', sym.to_arr(A)), b)

    def logdet(self, A):
        from . import npshim
        return npshim.slogdet(A)[1]

    def posdef(self, A):
        from . import npshim
        return npshim.posdef(sym.to_arr(A))

    def map(self, f, arr):
        """elementwise arbitrary function of an array"""
        if isinstance(arr, SArr):
            g = arr.f
            return SArr(arr.shape_t, lambda *i: lift(f(SReal(g(*i), True))))
        out = rnp.empty(arr.shape, dtype=object)
        for i in rnp.ndindex(arr.shape):
            out[i] = f(arr[i])
        return out

    def assume(self, c):
        if c is True:
            return
        if c is False:
            raise PathEnd()
        self.e.assume(tobt(c))

    def split(self, c):
        """case distinction (both cases are verified)"""
        if isinstance(c, SBool):
            return self.e.branch(c.t)
        return bool(c)

    def skip(self):
        raise PathEnd()

    def is_sym(self, x):
        return isinstance(x, (SReal, SBool, SArr))

    # -- contracts on callees / externals
    def patch(self, obj, name, value):
        old = obj.__dict__.get(name, None) if not isinstance(obj, dict) else obj[name]
        had = name in (obj if isinstance(obj, dict) else obj.__dict__)
        if isinstance(obj, dict):
            obj[name] = value
            self.e.restore.append(lambda: obj.__setitem__(name, old))
            return
        setattr(obj, name, value)
        self.e.restore.append((lambda: setattr(obj, name, old)) if had else (lambda: delattr(obj, name)))

    def contract(self, func, stub):
        """Replace func (a function of /repo or a library) in every radvel module by its contract."""
        from . import loader
        loader.overlay(func, stub, self.patch)

    # -- obligations
    def prove(self, name, cond):
        if isinstance(cond, SArr):
            cond = sym.aall(cond)
        if isinstance(cond, rnp.ndarray):
            cond = self.m.and_(*[c for c in cond.flat])
        return self.e.oblige(name, cond if isinstance(cond, (bool, rnp.bool_)) else tobt(cond))

    def prove_eq(self, name, a, b, tol=None, scale=None):
        r = self._eq(name, a, b)
        return r

    def _eq(self, name, a, b):
        e = self.e
        if isinstance(a, (SArr, rnp.ndarray, list, tuple)) or isinstance(b, (SArr, rnp.ndarray, list, tuple)):
            if isinstance(a, (list, tuple)):
                a = rnp.array(a, dtype=object)
            if isinstance(b, (list, tuple)):
                b = rnp.array(b, dtype=object)
            if isinstance(a, rnp.ndarray) and isinstance(b, rnp.ndarray):
                if a.shape != b.shape:
                    return e.record(name, False, 'shapes %s and %s differ' % (a.shape, b.shape))
                ok = True
                for x, y in zip(a.flat, b.flat):
                    ok = self._eq(name, x, y) and ok
                if a.size == 0:
                    e.record(name, True, backend='evaluation')
                return ok
            A, B = sym.to_arr(a), sym.to_arr(b)
            if A is None or B is None:
                return e.record(name, False, 'array compared with a scalar')
            if A.mask is not None or B.mask is not None:
                if A.mask is None or B.mask is None:
                    return e.record(name, False, 'selections differ')
                i = tm.fresh('p', True)
                g = tm.and_(tm.iff(A.mask(i), B.mask(i)), tm.implies(A.mask(i), tm.eq(A.f(i), B.f(i))))
                return e.oblige(name, tm.forall(A.n, lambda j: tm.subst(g, {i: j})))
            if A.parts is not None or B.parts is not None:
                if A.parts is not None and B.parts is not None and len(A.parts) == len(B.parts) and \
                        all(sym.same_dim(p.n, q.n) for p, q in zip(A.parts, B.parts)):
                    return all([self._eq(name, p, q) for p, q in zip(A.parts, B.parts)])
                if A.parts is not None and len(A.parts) == 1:
                    return self._eq(name, A.parts[0], B)
                if B.parts is not None and len(B.parts) == 1:
                    return self._eq(name, A, B.parts[0])
            if A.ndim != B.ndim:
                return e.record(name, False, 'dimensions differ')
            shp = tm.and_(*[tm.eq(x, y) for x, y in zip(A.shape_t, B.shape_t)])
            if not e.oblige(name, shp):
                return False
            if A.ndim == 1:
                return e.oblige(name, tm.forall(A.n, lambda i: tm.eq(A.f(i), B.f(i))))
            return e.oblige(name, tm.forall(A.shape_t[0], lambda i: tm.forall(
                A.shape_t[1], lambda j: tm.eq(A.f(i, j), B.f(i, j)))))
        if all(isinstance(v, (int, float, rnp.floating, rnp.integer)) for v in (a, b)):
            from .conc import close
            ok = close(a, b, 1e-9)
            return e.record(name, ok, '' if ok else '%r is not %r' % (a, b), backend='evaluation')
        x, y = lift(a), lift(b)
        if x is None or y is None:
            for v in (a, b):
                if lift(v) is None and not isinstance(v, (float, rnp.floating)):
                    return e.record(name, False, 'not a number: %r' % (v,))
            if x is None and y is None:
                ok = (a == b) or (a != a and b != b)
                return e.record(name, bool(ok), '' if ok else '%r is not %r' % (a, b), backend='evaluation')
            if not e.ctx().feasible():
                return e.record(name, True)
            return e.record(name, False, '%r is not %r' % (a, b))
        return e.oblige(name, tm.eq(x, y))

    def prove_same(self, name, a, b):
        """equality of ordinary Python data (strings, lists, flags)"""
        return self.e.record(name, bool(a == b), '' if a == b else '%r is not %r' % (a, b), backend='evaluation')

    def prove_runs(self, name, a, runs):
        """a is the concatenation of runs (label, length)"""
        try:
            a = sym.rep_of(a)
        except Unsupported as x:
            return self.e.record(name, False, str(x), backend='evaluation')
        def norm(parts):
            out = []
            for v, n in parts:
                n = lift(n)
                if n == tm.ZERO:
                    continue
                if out and out[-1][0] == v:
                    out[-1] = (v, tm.add(out[-1][1], n))
                else:
                    out.append((v, n))
            return out
        x, y = norm(a.parts), norm(runs)
        self.e.record(name, [v for v, _ in x] == [v for v, _ in y], '%r is not %r' % (x, y), backend='evaluation')
        if len(x) == len(y):
            for (_, m), (_, n) in zip(x, y):
                self.e.oblige(name, tm.eq(m, n))

    def raises(self, name, exc, f):
        try:
            r = f()
        except (Unsupported, PathEnd, Restart):
            raise
        except exc:
            return self.e.record(name, True, backend='evaluation')
        except Exception as x:
            if not self.e.in_repo(x) and not isinstance(x, AssertionError):
                raise
            return self.e.record(name, False, 'raised %r instead of %r' % (x, exc))
        if not self.e.ctx().feasible():
            return True
        return self.e.record(name, False, 'no exception, returned %r' % (r,))

    def same(self, a, b):
        return _same(a, b)

    # -- frames
    def snapshot(self, x):
        return snap(x)

    def unchanged(self, name, x, s):
        ok = unsnap_eq(x, s)
        return self.e.record(name, ok, '' if ok else 'value was modified', backend='frame')

    def cover(self, name):
        self.e.covers.add(name)

    def len(self, a):
        if isinstance(a, SArr):
            return sym.intv(a.length_t())
        return len(a)


def snap(x):
    if isinstance(x, SArr):
        return ('arr', x.f, x.mask, x.shape_t)
    if isinstance(x, rnp.ndarray):
        return ('nd', x.copy())
    if isinstance(x, dict):
        return ('dict', {k: snap(v) for k, v in x.items()})
    if isinstance(x, (list, tuple)):
        return ('seq', [snap(v) for v in x])
    if hasattr(x, '__dict__') and type(x).__module__.startswith('radvel'):
        return ('obj', {k: snap(v) for k, v in vars(x).items()}, {k: snap(v) for k, v in x.items()}
                if isinstance(x, dict) else None)
    return ('val', x)


def unsnap_eq(x, s):
    k = s[0]
    if k == 'arr':
        return isinstance(x, SArr) and x.f is s[1] and x.mask is s[2] and x.shape_t == s[3]
    if k == 'nd':
        if not (isinstance(x, rnp.ndarray) and x.shape == s[1].shape):
            return False
        return all(_same(a, b) for a, b in zip(x.flat, s[1].flat))
    if k == 'dict':
        return isinstance(x, dict) and list(x.keys()) == list(s[1].keys()) and \
            all(unsnap_eq(x[q], s[1][q]) for q in s[1])
    if k == 'seq':
        return len(x) == len(s[1]) and all(unsnap_eq(a, b) for a, b in zip(x, s[1]))
    if k == 'obj':
        return set(vars(x)) == set(s[1]) and all(unsnap_eq(vars(x)[q], s[1][q]) for q in s[1])
    return _same(x, s[1])


def _same(a, b):
    if a is b:
        return True
    if isinstance(a, (SReal, SBool)) or isinstance(b, (SReal, SBool)):
        x, y = lift(a), lift(b)
        if x is None or y is None:
            return False
        if x is y:
            return True
        return sym.eng().prove_now(tm.eq(x, y))
    try:
        r = a == b
        if isinstance(r, rnp.ndarray):
            return bool(r.all())
        return bool(r) or (a != a and b != b)
    except Exception:
        return False
