"""Loads /repo's modules for symbolic execution.

The source text is read from /repo on every run and executed by CPython.  Two mechanical changes are made to the
syntax tree: a call `f(..)` of the builtins len, range, float, int, isinstance, type, round, min, max, sum, abs,
sorted, enumerate, zip, list goes through a wrapper that understands symbolic values (and is the builtin on concrete ones), and `for` and
`while` statements announce themselves to the engine.  Nothing is dropped.  After the import, the module globals that
are numpy / math / scipy functions are replaced by their contracts (npshim.py).
"""
import ast
import builtins
import importlib.abc
import importlib.machinery
import math
import os
import re
import sys

import numpy as rnp

from . import terms as tm
from . import sym
from . import npshim
from .sym import SReal, SBool, SArr, SRange, Unsupported, PathEnd, lift

REPO = os.environ.get('VP_REPO', '/repo')

WRAP = ('len', 'range', 'float', 'int', 'isinstance', 'type', 'round', 'min', 'max', 'sum', 'abs', 'sorted', 'bool',
        'enumerate', 'list', 'zip', 'reversed', 'str')


class Instrument(ast.NodeTransformer):
    def __init__(self, fname):
        self.fname = fname
        self.k = 0
        self.scopes = []

    def visit_FunctionDef(self, node):
        self.scopes.append(node)
        self.generic_visit(node)
        self.scopes.pop()
        return node

    def visit_Call(self, node):
        self.generic_visit(node)
        if isinstance(node.func, ast.Name) and node.func.id in WRAP:
            node.func = ast.copy_location(ast.Name(id='__vc_' + node.func.id + '__', ctx=ast.Load()), node.func)
        return node

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if isinstance(node.op, ast.Mod) and isinstance(node.left, ast.Constant) and isinstance(node.left.value, str):
            return ast.copy_location(ast.Call(func=ast.Name(id='__vc_mod__', ctx=ast.Load()), args=[node.left, node.right], keywords=[]), node)
        return node

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if isinstance(node.slice, (ast.Name, ast.Compare, ast.BinOp, ast.Call, ast.UnaryOp, ast.Attribute, ast.Subscript)):
            node.slice = ast.copy_location(ast.Call(func=ast.Name(id='__vc_index__', ctx=ast.Load()), args=[node.slice] + (
                [ast.Name(id=node.value.id, ctx=ast.Load())] if isinstance(node.value, ast.Name) else []),
                                                    keywords=[]), node.slice)
        return node

    def visit_For(self, node):
        self.generic_visit(node)
        self.k += 1
        node.iter = ast.copy_location(ast.Call(
            func=ast.Name(id='__vc_iter__', ctx=ast.Load()),
            args=[node.iter, ast.Constant('%s:for%d' % (os.path.basename(self.fname), self.k))], keywords=[]), node.iter)
        return node

    def visit_While(self, node):
        scope = self.scopes[-1] if self.scopes else None
        names = sorted((assigned(node.body) & live(node, scope)) | appended(node.body, scope))
        consts = sorted({x.value for x in ast.walk(node) if isinstance(x, ast.Constant) and type(x.value) is int})
        self.generic_visit(node)
        self.k += 1
        site = '%s:while%d' % (os.path.basename(self.fname), self.k)
        w = '__vc_w%d__' % self.k
        L = lambda n: ast.Name(id=n, ctx=ast.Load())
        S = lambda n: ast.Name(id=n, ctx=ast.Store())
        head = [ast.Assign(targets=[S(w)], value=ast.Call(func=L('__vc_while__'), args=[ast.Constant(site), ast.Constant(tuple(names)), ast.Constant(tuple(sorted(assigned(node.body) - set(names)))), ast.Constant(tuple(consts))], keywords=[]))]
        body = [ast.Assign(targets=[S(w + 'd')], value=ast.Call(
            func=ast.Attribute(value=L(w), attr='head', ctx=ast.Load()),
            args=[ast.Call(func=L('locals'), args=[], keywords=[])], keywords=[]))]
        for n in names:
            body.append(ast.If(test=ast.Compare(left=ast.Constant(n), ops=[ast.In()], comparators=[L(w + 'd')]),
                               body=[ast.Assign(targets=[S(n)], value=ast.Subscript(value=L(w + 'd'), slice=ast.Constant(n), ctx=ast.Load()))],
                               orelse=[]))
        test = ast.Call(func=ast.Attribute(value=L(w), attr='test', ctx=ast.Load()), args=[node.test], keywords=[])
        if node.orelse:
            body = body + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=node.orelse + [ast.Break()], orelse=[])]
        else:
            body = body + [ast.If(test=ast.UnaryOp(op=ast.Not(), operand=test), body=[ast.Break()], orelse=[])]
        new = ast.While(test=ast.Constant(True), body=body + node.body, orelse=[])
        out = head + [new]
        for o in out:
            ast.copy_location(o, node)
            ast.fix_missing_locations(o)
        return out


def assigned(body):
    names = set()
    for st in body:
        for x in ast.walk(st):
            if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store) and not x.id.startswith('__vc_'):
                names.add(x.id)
    return names


def appended(body, scope):
    """local lists that grow in the loop"""
    if scope is None:
        return set()
    local = assigned(scope.body) if not isinstance(scope, ast.Lambda) else set()
    return {x.func.value.id for st in body for x in ast.walk(st)
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr == 'append' and
            isinstance(x.func.value, ast.Name)} & local


class GList(object):
    """a list that has grown in a loop by an unknown number of elements: the first ones and the last ones are known"""
    __array_ufunc__ = None

    def __init__(self, name, first):
        self.name, self.first, self.added = name, list(first), []

    def append(self, x):
        self.added.append(x)

    def _no(self, *a, **k):
        raise Unsupported('list of unknown length')
    __len__ = __iter__ = __getitem__ = __setitem__ = __add__ = __radd__ = __iadd__ = __eq__ = __contains__ = _no
    __array__ = __bool__ = _no
    __hash__ = object.__hash__

    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Unsupported('method %s of a list of unknown length' % k)


def loads(x):
    out = set()
    for y in ast.walk(x):
        if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Store):
            out.add(y.id)
        elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
            out.add(y.target.id)
    return out


def live(node, scope):
    """variables whose value at the head of the loop may be read (everything when in doubt)"""
    out = loads(node.test)
    done = set()
    for st in node.body:
        out |= loads(st) - done
        if isinstance(st, ast.Assign):
            done |= {t.id for t in st.targets if isinstance(t, ast.Name)}
    for st in node.orelse:
        out |= loads(st)
    if scope is None:
        return out | assigned(node.body)
    inside = set(map(id, ast.walk(node)))
    for y in ast.walk(scope):
        if id(y) not in inside:
            if isinstance(y, ast.Name) and not isinstance(y.ctx, ast.Store):
                out.add(y.id)
            elif isinstance(y, ast.AugAssign) and isinstance(y.target, ast.Name):
                out.add(y.target.id)
            elif isinstance(y, (ast.Global, ast.Nonlocal)):
                out |= set(y.names)
        if isinstance(y, ast.Name) and y.id in ('locals', 'vars', 'eval', 'exec'):
            return out | assigned(node.body)
    # a loop around this one may carry the value
    for y in ast.walk(scope):
        if isinstance(y, (ast.For, ast.While)) and y is not node and id(node) in set(map(id, ast.walk(y))):
            return out | assigned(node.body)
    return out


def instrument(src, fname):
    tree = ast.parse(src, fname)
    tree = Instrument(fname).visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, fname, 'exec')


class Loader(importlib.machinery.SourceFileLoader):
    def source_to_code(self, data, path, *, _optimization=-1):
        return instrument(data, path)

    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)

    def exec_module(self, module):
        module.__dict__.update(hooks())
        super().exec_module(module)


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name != 'radvel' and not name.startswith('radvel.'):
            return None
        if name.startswith('radvel.plot') or name.startswith('radvel.tests') or name == 'radvel._kepler':
            return None
        parts = name.split('.')
        base = os.path.join(REPO, *parts)
        if os.path.isdir(base):
            f = os.path.join(base, '__init__.py')
            return importlib.machinery.ModuleSpec(name, Loader(name, f), origin=f, is_package=True) if False else \
                importlib.util.spec_from_file_location(name, f, loader=Loader(name, f), submodule_search_locations=[base])
        f = base + '.py'
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


# -- builtins ---------------------------------------------------------------------------------------------------
def v_len(x):
    if isinstance(x, SArr):
        return sym.intv(x.length_t())
    if hasattr(x, '__vc_len__'):
        return x.__vc_len__()
    return len(x)


def v_mod(form, x):
    """text % values: a symbolic number under a numeric conversion becomes a token for (conversion, number)"""
    xs = list(x) if isinstance(x, tuple) else [x]
    if not isinstance(x, dict) and any(isinstance(v, SReal) for v in xs):
        parts = re.split(r'(%[-+ #0]*[0-9]*(?:\.[0-9]+)?[a-zA-Z%])', form)
        k = 0
        for i in range(1, len(parts), 2):
            if parts[i] == '%%':
                continue
            if k < len(xs) and isinstance(xs[k], SReal) and xs[k].t.op != 'const' and parts[i][-1] in 'dfegFEG':
                xs[k] = format(xs[k], parts[i][1:])
                parts[i] = '%s'
            k += 1
        return ''.join(parts) % tuple(xs)
    return form % x


def v_range(*a):
    if any(isinstance(x, SReal) and x.t.op != 'const' for x in a):
        if len(a) == 1:
            return SRange(tm.ZERO, a[0].t)
        if len(a) == 2:
            return SRange(lift(a[0]), lift(a[1]))
        raise Unsupported('symbolic range with a step')
    return range(*[int(x) if isinstance(x, SReal) else x for x in a])


def v_float(*a):
    if a and isinstance(a[0], SReal):
        return SReal(a[0].t)
    if a and isinstance(a[0], SBool):
        return SReal(lift(a[0]))
    if a and isinstance(a[0], SArr):
        raise TypeError('only length-1 arrays can be converted to Python scalars')
    if a and isinstance(a[0], rnp.ndarray) and a[0].dtype == object and a[0].size == 1:
        return v_float(a[0].reshape(-1)[0])
    if a and type(a[0]).__module__.startswith('radvel') and hasattr(type(a[0]), '__float__'):
        return type(a[0]).__float__(a[0])
    return float(*a)


def v_int(*a):
    if a and isinstance(a[0], SReal):
        t = a[0].t
        if t.op == 'const':
            return int(t.args[0])
        return npshim.s_trunc(a[0])
    if a and isinstance(a[0], SBool):
        return SReal(lift(a[0]))
    return int(*a)


def v_str(*a):
    if a and isinstance(a[0], SReal) and a[0].t in sym.eng().texts:
        return sym.eng().texts[a[0].t]
    if a and isinstance(a[0], SArr):
        return '<sym>'
    return str(*a)


def v_bool(*a):
    return bool(*a)


FLOATS = (float, rnp.floating, rnp.float64, rnp.number, rnp.generic, rnp.inexact)


def v_isinstance(x, cls):
    if isinstance(x, (SReal, SArr, SBool, SRange)):
        cs = cls if isinstance(cls, tuple) else (cls,)
        for c in cs:
            if isinstance(c, tuple):
                if v_isinstance(x, c):
                    return True
                continue
            if isinstance(x, SReal):
                if c is object or c is SReal:
                    return True
                integer = x.t.op == 'var' and x.t.args[1]
                try:
                    import numbers
                    if c is numbers.Number or c is numbers.Real:
                        return True
                except ImportError:
                    pass
                if integer:
                    if c is int or (x.np and c in (rnp.integer, rnp.int64)):
                        return True
                    continue
                if c is float:
                    return True
                if x.np and c in FLOATS:
                    return True
            elif isinstance(x, SArr):
                if c in (rnp.ndarray, object, SArr):
                    return True
            elif isinstance(x, SBool) and c in (bool, rnp.bool_, object, int):
                return True
        return False
    if cls is float and isinstance(x, float):
        return True
    return isinstance(x, cls)


def v_type(*a):
    if len(a) == 1:
        x = a[0]
        if isinstance(x, SReal):
            if x.t.op == 'var' and x.t.args[1]:
                return int
            return rnp.float64 if x.np else float
        if isinstance(x, SArr):
            return rnp.ndarray
        if isinstance(x, SBool):
            return bool
    return type(*a)


def v_round(x, n=None):
    if isinstance(x, SReal):
        return npshim.np_round(x, 0 if n is None else n)
    if npshim.is_sym(x):
        return npshim.np_round(x, n or 0)
    if n is None:
        return round(x)
    if isinstance(n, SReal):
        raise Unsupported('round to a symbolic number of digits')
    return round(x, n)


def _minmax(which, a, k):
    if len(a) == 1 and not k:
        if isinstance(a[0], SArr):
            return sym.aminmax(which, a[0])
        xs = list(a[0])
    else:
        xs = list(a)
    if not k and len(a) == 2 and len(xs) == 2 and all(sym.is_num(x) for x in xs):
        return getattr(builtins, which)(*xs)             # (compares, as the builtin does: one path per outcome)
    if not k and xs and any(isinstance(x, SReal) for x in xs) and all(sym.is_num(x) for x in xs):
        r = xs[0]
        for x in xs[1:]:
            r = (npshim.p_min if which == 'min' else npshim.p_max)(r, x)
        return r
    return getattr(builtins, which)(*a, **k)


def v_min(*a, **k):
    return _minmax('min', a, k)


def v_max(*a, **k):
    return _minmax('max', a, k)


def v_sum(x, *s):
    if isinstance(x, SArr):
        r = sym.asum(x)
        return r + s[0] if s else r
    return sum(x, *s)


def v_abs(x):
    return abs(x)


def v_sorted(x, **k):
    if isinstance(x, SArr):
        if k:
            raise Unsupported('sorted() of a symbolic array')
        x = sym.eng().canon(x)
        return x[npshim.argsort(x)]
    return sorted(x, **k)


def v_enumerate(x, *a):
    if isinstance(x, (SArr, SRange)):
        return Lockstep([SRange(tm.ZERO, x.n if isinstance(x, SArr) else x.b), x])
    return enumerate(x, *a)


def v_zip(*xs, **k):
    if any(isinstance(x, (SArr, SRange)) for x in xs):
        return Lockstep(xs)
    return zip(*xs, **k)


def v_list(*a):
    if a and isinstance(a[0], SArr):
        return a[0].copy()
    return list(*a)


def v_reversed(x):
    return reversed(x)


class Lockstep(object):
    def __init__(self, xs):
        self.xs = xs

    def __iter__(self):
        raise Unsupported('iteration over symbolic sequences outside a for statement')


def v_iter(it, site):
    """`for`: concrete iterables run as they are; symbolic ranges are summarised by one arbitrary iteration."""
    if isinstance(it, SArr):
        n = sym.intv(it.length_t())
        if isinstance(n, int) and it.mask is None:
            return iter([it[i] for i in range(n)])
        it = Lockstep([it])
        it.single = True
    if isinstance(it, SRange) or isinstance(it, Lockstep):
        return map_loop(it, site)
    return it


def map_loop(it, site):
    """The loop `for i in range(n)` of which one arbitrary iteration is executed.

    Sound when the iterations are independent: each writes only the element i of arrays, and assigns no variable that
    existed before the loop.  Anything else is Unsupported (the caller then falls back to the bounded mode).
    """
    e = sym.eng()
    if isinstance(it, Lockstep):
        a, n, xs = tm.ZERO, None, it.xs
        for x in xs:
            m = x.n if isinstance(x, SArr) else (x.b if isinstance(x, SRange) else tm.const(len(x)))
            if n is not None and not sym.same_dim(m, n):
                raise Unsupported('zip of sequences of different length')
            n = m
            if isinstance(x, SArr) and x.mask is not None:
                raise Unsupported('loop over a selection')
    else:
        a, n, xs = it.a, it.b, None
    if not e.branch(tm.lt(a, n)):
        return
    i = tm.fresh('it', True)
    fr = sys._getframe(1)
    before = dict(fr.f_locals)
    arrs = {}

    def collect(v, d=0):
        if isinstance(v, SArr):
            arrs[id(v)] = (v, v.f, v.mask, v.shape_t)
        elif isinstance(v, dict) and d < 3:
            for w in list(v.values()):
                collect(w, d + 1)
        elif isinstance(v, (list, tuple)) and d < 3:
            for w in v:
                collect(w, d + 1)
        elif hasattr(v, '__dict__') and type(v).__module__.startswith('radvel') and d < 3:
            for w in list(vars(v).values()):
                collect(w, d + 1)
    for v in before.values():
        collect(v)
    lens = {k: len(v) for k, v in before.items() if isinstance(v, (list, dict, set))}
    saved_facts = list(e.facts)
    saved_touched = e.touched
    e.touched = {}
    e.assume(tm.and_(tm.le(a, i), tm.lt(i, n)))
    e.add_index(i)
    # the elements handed to the body are read before it runs
    if xs is None:
        item = SReal(i)
    elif getattr(it, 'single', False):
        item = xs[0][SReal(i)]
    else:
        item = tuple(SReal(tm.add(x.a, i)) if isinstance(x, SRange) else
                     x[SReal(i)] if isinstance(x, SArr) else SReal(sym.to_arr(rnp.asarray(x, dtype=object)).f(i)) for x in xs)
    e.map_loops.append(frozenset(i.vs))
    yield item
    e.map_loops.pop()
    touched, e.touched = e.touched, saved_touched
    after = fr.f_locals
    for k, v in before.items():
        w = after.get(k, v)
        if w is not v and not k.startswith('__vc'):
            raise Unsupported('variable %s carried by a summarised loop' % k)
        if k in lens and len(w) != lens[k]:
            raise Unsupported('collection %s grown in a summarised loop' % k)
    q = tm.fresh('w', True)
    for (v, f, mask, shp) in arrs.values():
        if v.f is f:
            continue
        if id(v) in touched:
            raise Unsupported('loop-carried array dependence')
        new = v.f
        # at position i the new value; every other position must be untouched by this iteration
        val = new(i)
        if not e.prove_now(tm.implies(tm.not_(tm.eq(q, i)), tm.eq(new(q), f(q))), [q]):
            raise Unsupported('a summarised loop writes other elements than its own')

        def g(j, val=val, f=f):
            return tm.ite(tm.and_(tm.le(a, j), tm.lt(j, n)), tm.subst(val, {i: j}), f(j))
        v.f = g
        v.parts = None
    e.facts = saved_facts
    e.ctx_ = None


# -- while loops with inferred invariants ------------------------------------------------------------------------
class WhileLoop(object):
    """Unrolled as long as the condition is decided; otherwise havoc + invariants inferred from the loop itself."""
    LIMIT = 60

    def __init__(self, site, names, dead=(), consts=()):
        self.dead = dead
        self.consts = consts
        self.site = site
        self.names = names
        self.e = sym.eng()
        self.visit = 0
        self.havoc = self.e is not None and site in self.e.havoc_sites
        self.forks = 0

    def head(self, loc):
        self.visit += 1
        e = self.e
        self.hpos = e.pos if e is not None else 0
        if self.visit > 20000:
            raise Unsupported('loop does not terminate symbolically')
        if not self.havoc or e is None:
            return {}
        at = e.__dict__.setdefault('_havoc_at', {}).get(self.site, 1)
        if self.visit == at:
            self.spec = e.loop_specs.get(sys._getframe(1).f_code.co_name)
            return self.enter(loc)
        if self.visit == at + 1:
            self.check_preserved(loc)
            raise PathEnd()
        return {}

    def test(self, cond):
        """the condition of the loop; decisions taken while it is evaluated (`a and b`) count as well"""
        e = self.e
        if e is None:
            return bool(cond)
        at = e.__dict__.setdefault('_havoc_at', {})
        if self.havoc and self.visit >= at.get(self.site, 1):
            e.loops_used.add(self.site)
            return e.branch(cond.t) if isinstance(cond, SBool) else bool(cond)
        r = e.branch(cond.t) if isinstance(cond, SBool) else bool(cond)
        if any(ev[0] == 'fork' for ev in e.events[self.hpos:e.pos]):
            self.forks += 1
            if self.forks > (0 if not e.bounded else 8):
                if e.bounded:
                    raise Unsupported('loop with an undecided number of iterations')
                # the iterations that certainly happen are executed, the others summarised
                at[self.site] = min(self.visit, at.get(self.site, self.visit))
                e.havoc_sites.add(self.site)
                from .engine import Restart
                raise Restart()
        return r

    # candidate invariants: state at entry as a relation between variables
    def enter(self, loc):
        from .engine import snap
        e = self.e
        e.loops_used.add(self.site)
        inplace = e.__dict__.setdefault('_inplace', {}).setdefault(self.site, set())
        self.entry = {k: loc[k] for k in self.names if k in loc}
        self.frame = {k: v for k, v in loc.items() if k not in self.entry and k not in self.dead and
                      not k.startswith('__vc')}
        new = {}
        for k, v in self.entry.items():
            if isinstance(v, SReal):
                new[k] = SReal(tm.fresh('h_' + k, is_intterm(v.t)), v.np)
            elif isinstance(v, bool):
                raise Unsupported('flag carried by a loop')
            elif isinstance(v, int):
                new[k] = SReal(tm.fresh('h_' + k, True))
            elif isinstance(v, (float, rnp.floating)):
                new[k] = SReal(tm.fresh('h_' + k, False))
            elif isinstance(v, SArr):
                new[k] = self.havoc_array(k, v)
            elif isinstance(v, list):
                new[k] = GList(k, v)
            else:
                raise Unsupported('loop variable %s of type %s' % (k, type(v).__name__))
        # arrays modified in place although not assigned
        for k in sorted(inplace):
            v = self.frame.pop(k)
            self.entry[k] = SArr(v.shape_t, v.f, v.kind, mask=v.mask)
        self.new = new
        self.inp = {k: loc[k] for k in inplace}
        shadow = dict(new)
        for k, v in self.inp.items():
            h = self.havoc_array(k, v)
            shadow[k] = h
        cands = self.candidates(self.entry) + e.__dict__.setdefault('_learnt', {}).get(self.site, [])
        keep = []
        for name, f in cands:
            t = f(self.entry)
            if t is None:
                continue
            # `as function of` restates the value at entry
            if (' as function of ' in name and 'later' not in name) or e.prove_now(t, []):
                keep.append((name, f))
        drop = e.__dict__.setdefault('_drops', {}).setdefault(self.site, set())
        self.inv = [(n, f) for n, f in keep if n not in drop]
        # x of y follows from x of z and z of y
        rel = [tuple(n.replace('[i]', '').split(' as function of ')) for n, _ in self.inv if ' as function of ' in n]
        self.inv = [(n, f) for n, f in self.inv if ' as function of ' not in n or not any(
            (x, z) in rel and (z, y) in rel for x, y in [tuple(n.replace('[i]', '').split(' as function of '))]
            for z in {b for _, b in rel})]
        for k, v in self.inp.items():
            v.f = shadow[k].f
            v.parts = None
        for n, f in self.inv:
            e.assume(f(shadow))
        self.snaps = {k: snap(v) for k, v in self.frame.items()}
        if self.spec is not None:
            self.call('entry', {k: v for k, v in loc.items()})
            self.pre = dict(self.frame, **new)
            self.call('assume', self.pre)
        return new

    def call(self, what, *a):
        """the loop contract written next to the property"""
        try:
            getattr(self.spec, what)(*a)
        except (KeyError, AttributeError, TypeError, IndexError) as x:
            if os.environ.get('VP_DEBUG'):
                raise
            raise Unsupported('the contract of loop %s does not fit the code: %s %s' % (self.site, type(x).__name__, x))

    def havoc_array(self, k, v):
        if v.ndim != 1:
            raise Unsupported('loop variable %s with %d dimensions' % (k, v.ndim))
        # an array may have several forms (the indices of the selected elements at first, a boolean mask later)
        forms = [arrform(v)] + sorted(self.e.__dict__.setdefault('_forms', {}).get((self.site, k), ()))
        kind, masked, ident = forms[self.e.choose(len(forms))] if len(forms) > 1 else forms[0]
        nm = 'h_%s!%d' % (k, self.e.pos)
        f = (lambda i: i) if ident else (lambda i: tm.sel(nm, i)) if kind != 'B' else (lambda i: tm.lt(tm.ZERO, tm.sel(nm, i)))
        if masked:
            return SArr(v.shape_t, f, kind, mask=lambda i: tm.lt(tm.ZERO, tm.sel(nm + 'm', i)))
        return SArr(v.shape_t, f, kind)

    def learn(self, st):
        """relations that hold after an iteration, as further candidates"""
        have = {n.replace(' later', '') for n, _ in self.inv} - self.e._drops.get(self.site, set())
        out = []
        mine = set()
        for v in self.new.values():
            if isinstance(v, SReal):
                mine.add(v.t)
        mark = 'h_'
        for n, f in self.candidates(st):
            if ' as function of ' not in n or n in have:
                continue
            # the relation may mention nothing of the iteration it was read off
            w = {k: SReal(tm.var('?' + k, False)) if not isinstance(v, SArr) else
                 SArr(v.shape_t, (lambda i, k=k: tm.sel('?' + k, i)) if v.kind != 'B' else
                      (lambda i, k=k: tm.lt(tm.ZERO, tm.sel('?' + k, i))), v.kind, mask=v.mask) for k, v in st.items()}
            t = f(w)
            if any((x.op == 'var' and str(x.args[0]).startswith(mark)) or
                   (x.op in ('sel', 'bsel') and str(x.args[0]).startswith(mark)) for x in tm.subterms(t)):
                continue
            out.append((n + ' later', f))
        return out

    def candidates(self, ent):
        out = []
        num = {k: lift(v) for k, v in ent.items() if lift(v) is not None}
        arr = {k: v for k, v in ent.items() if isinstance(v, SArr) and v.mask is None and v.ndim == 1 and v.kind != 'I' and
               not self.e.__dict__.get('_forms', {}).get((self.site, k))}
        for k, t in num.items():
            for u, s in num.items():
                if u == k or s.op == 'const' or t.op == 'const':
                    continue
                if s in tm.subterms(t) and s is not t:
                    def f(st, k=k, u=u, t=t, s=s):
                        a, b = lift(st[k]), lift(st[u])
                        return tm.eq(a, tm.subst(t, {s: b}))
                    out.append(('%s as function of %s' % (k, u), f))
            if t.op in ('count', 'sum'):
                for u, v in arr.items():
                    i, n, body = t.args
                    s = v.f(i)
                    if s.op != 'const' and (s in tm.subterms(body)):
                        def f(st, k=k, u=u, t=t, s=s):
                            i, n, body = t.args
                            mk = tm.count if t.op == 'count' else tm.ssum
                            return tm.eq(lift(st[k]), mk(n, lambda j: tm.subst(tm.subst(body, {s: st[u].f(i)}), {i: j})))
                        out.append(('%s as function of %s' % (k, u), f))
            if t.op == 'const' and t.args[0].denominator == 1:
                out.append(('%s >= %s' % (k, t), lambda st, k=k, t=t: tm.le(t, lift(st[k]))))
                for c in sorted(set(self.consts) | {v for v in self.frame.values() if type(v) is int}):
                    out.append(('%s < %d' % (k, c), lambda st, k=k, c=c: tm.lt(lift(st[k]), tm.const(c))))
                    out.append(('%s <= %d' % (k, c), lambda st, k=k, c=c: tm.le(lift(st[k]), tm.const(c))))
        q = tm.fresh('e', True)
        for k, v in arr.items():
            for u, w in arr.items():
                if u == k or not sym.same_dim(v.n, w.n):
                    continue
                t, s = v.f(q), w.f(q)
                if s.op == 'const' or s is t or s not in tm.subterms(t):
                    continue

                def f(st, k=k, u=u, t=t, s=s):
                    a, b = st[k], st[u]
                    def at(j):
                        r = tm.subst(tm.subst(t, {s: b.f(q)}), {q: j})
                        return tm.iff(a.f(j), r) if a.kind == 'B' else tm.eq(a.f(j), r)
                    return tm.forall(a.n, at)
                out.append(('%s[i] as function of %s[i]' % (k, u), f))
        return out

    def check_preserved(self, loc):
        from .engine import Restart, unsnap_eq
        e = self.e
        # what the loop does not assign
        for k, v in self.frame.items():
            if k not in loc or loc[k] is not v or not unsnap_eq(v, self.snaps[k]):
                if isinstance(v, SArr) and k in loc and loc[k] is v and self.snaps[k][3] == v.shape_t and \
                        self.snaps[k][2] is v.mask:
                    e._inplace[self.site].add(k)
                    raise Restart()
                raise Unsupported('variable %s modified in place by a loop' % k)
        st = {k: loc[k] for k in self.entry}
        for k, v in self.entry.items():
            w = st[k]
            if isinstance(v, SArr):
                if not isinstance(w, SArr) or w.ndim != v.ndim:
                    raise Unsupported('loop variable %s changes its type' % k)
                forms = e._forms.setdefault((self.site, k), set())
                if arrform(w) != arrform(v) and arrform(w) not in forms:
                    if k in self.inp or len(forms) > 2:
                        raise Unsupported('loop variable %s changes its type' % k)
                    forms.add(arrform(w))
                    raise Restart()
            if isinstance(v, SArr) and not all(sym.same_dim(a, b) for a, b in zip(v.shape_t, w.shape_t)):
                raise Unsupported('loop variable %s changes its size' % k)
            if isinstance(v, list):
                if w is not self.new[k]:
                    raise Unsupported('list %s replaced in a loop' % k)
            elif not isinstance(v, SArr) and lift(w) is None:
                raise Unsupported('loop variable %s changes its type' % k)
        bad = False
        for n, f in self.inv:
            t = f(st)
            if not e.prove_now(t, []):
                e._drops.setdefault(self.site, set()).add(n)
                bad = True
        if bad or self.site not in e._learnt:
            old = e._learnt.setdefault(self.site, [])
            new = [x for x in self.learn(st) if x[0] not in [y[0] for y in old]]
            old += new
            bad = bad or bool(new)
        if bad:
            raise Restart()
        if self.spec is not None:
            self.call('step', self.pre, dict(loc), {k: v.added for k, v in self.new.items() if isinstance(v, GList)})
        e.record('loop %s: inferred invariant preserved (%s)' % (self.site, '; '.join(n for n, _ in self.inv)), True)


def arrform(v):
    q = tm.var('q!form', True)
    return (v.kind, v.mask is not None, v.kind == 'I' and v.f(q) is q)


def is_intterm(t):
    if t.op == 'count' or (t.op == 'app' and str(t.args[0]).startswith('int:')):
        return True
    if t.op in ('add', 'mul'):
        return all(is_intterm(x) for x in t.args)
    return t.op == 'var' and t.args[1] or (t.op == 'const' and t.args[0].denominator == 1)


def v_index(i, a=None):
    """an array of symbolic truth values, or a symbolic integer, as index of a concrete array: one path per selection"""
    if isinstance(i, SReal) and type(a) in (rnp.ndarray, list, tuple):
        for k in range(-len(a), len(a)):
            if bool(i == k):
                return k
        raise IndexError('index out of range')
    if type(i) is rnp.ndarray and i.dtype == object and i.size and isinstance(i.flat[0], SBool):
        return rnp.array([bool(x) for x in i.flat], dtype=bool).reshape(i.shape)
    return i


def v_while(site, names, dead=(), consts=()):
    return WhileLoop(site, names, dead, consts)


def hooks():
    g = globals()
    d = {'__vc_' + n + '__': g['v_' + n] for n in WRAP}
    d['__vc_iter__'] = v_iter
    d['__vc_mod__'] = v_mod
    d['__vc_index__'] = v_index
    d['__vc_while__'] = v_while
    return d


_installed = [False]


def install():
    """import radvel under the instrumentation and overlay the library contracts"""
    if _installed[0]:
        return sys.modules['radvel']
    _installed[0] = True
    sys.meta_path.insert(0, Finder())
    import warnings
    warnings.simplefilter('ignore')
    import radvel
    import radvel.driver
    import radvel.cli
    assert radvel.__file__.startswith(REPO), radvel.__file__
    over = npshim.scipy_over()
    over[id(rnp)] = npshim.SymNP()
    over[id(math)] = npshim.SymMathMod()
    import astropy.units
    import scipy.optimize
    over[id(astropy.units)] = npshim.SymUnits()
    over[id(scipy.optimize.root)] = npshim.root
    mm = npshim.SymMathMod()
    for n in ('sin', 'cos', 'tan', 'sqrt', 'exp', 'log', 'floor', 'atan', 'atan2', 'pi', 'log10'):
        f = getattr(math, n)
        if n != 'pi':
            over[id(f)] = getattr(mm, n)
    for n in ('sin', 'cos', 'sqrt', 'exp', 'log', 'floor', 'array', 'sum', 'mean', 'dot', 'where', 'abs'):
        over[id(getattr(rnp, n))] = getattr(over[id(rnp)], n)
    for name, m in list(sys.modules.items()):
        if (name == 'radvel' or name.startswith('radvel.')) and not name.startswith('radvel.plot') and m is not None:
            for k, v in list(vars(m).items()):
                if k.startswith('__'):
                    continue
                r = over.get(id(v))
                if r is not None:
                    setattr(m, k, r)
    return sys.modules['radvel']


def overlay(func, stub, patch):
    for name, m in list(sys.modules.items()):
        if (name == 'radvel' or name.startswith('radvel.')) and m is not None:
            for k, v in list(vars(m).items()):
                if v is func:
                    patch(m, k, stub)
