"""Linear arithmetic over opaque subterms: a cheap, incomplete entailment check (tried before the normal forms)."""
import z3
from . import terms as tm
from fractions import Fraction


_alpha = {}
_height = {}


def alpha(t):
    """the term with canonical names for its bound variables (equal up to renaming <=> the same object)"""
    stack = [t]
    while stack:
        x = stack[-1]
        if x in _alpha:
            stack.pop()
            continue
        kids = [a for a in x.args if isinstance(a, tm.T)]
        todo = [a for a in kids if a not in _alpha]
        if todo:
            stack.extend(todo)
            continue
        h = max([_height[a] for a in kids] or [0])
        new = tuple(_alpha[a] if isinstance(a, tm.T) else a for a in x.args)
        if x.op in ('sum', 'count', 'all', 'any', 'lam'):
            h += 1
            v = tm.var('#%d' % h, True)
            body = tm.subst(new[-1], {new[0]: v})
            new = (v,) + new[1:-1] + (body,)
        _alpha[x] = tm.mk(x.op, *new) if kids else x
        _height[x] = h
        stack.pop()
    return _alpha[t]


def whole(t):
    if t.op == 'var':
        return t.args[1] is True
    return t.op == 'count' or (t.op == 'app' and str(t.args[0]).startswith('int:'))


class Quick(object):
    def __init__(self, facts, index_terms=()):
        self.vars = {}
        self.memo = {}
        self.s = z3.SimpleSolver()
        self.s.set('timeout', 400)
        self.index = list(index_terms)
        for f in facts:
            self.fact(f)

    def fact(self, f):
        if f.op == 'and':
            for g in f.args:
                self.fact(g)
        elif f.op == 'all':
            for i in self.index:
                self.s.add(self.at(f, i))
        else:
            self.s.add(self.b(f))
            if f.op == 'or' and any(x.op == 'all' for x in f.args):
                for i in self.index:
                    self.s.add(z3.Or([self.at(x, i) for x in f.args]))

    def at(self, f, i):
        """a consequence of f for index i"""
        if f.op != 'all':
            return self.b(f)
        bv, n, body = f.args
        return z3.Implies(z3.And(self.b(tm.le(tm.ZERO, i)), self.b(tm.lt(i, n))), self.b(tm.subst(body, {bv: i})))

    def opaque(self, t, boolean):
        t = alpha(t)
        v = self.vars.get(t)
        if v is None:
            name = 'o%d' % len(self.vars)
            v = z3.Bool(name) if boolean else z3.ToReal(z3.Int(name)) if whole(t) else z3.Real(name)
            self.vars[t] = v
        return v

    def b(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._b(t)
        return r

    def _b(self, t):
        o = t.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self.b(t.args[0]))
        if o == 'and':
            return z3.And([self.b(x) for x in t.args])
        if o == 'or':
            return z3.Or([self.b(x) for x in t.args])
        if o in ('lt', 'le', 'eq') and not tm.is_bool(t.args[0]):
            a, c = self.r(t.args[0]), self.r(t.args[1])
            return a < c if o == 'lt' else a <= c if o == 'le' else a == c
        return self.opaque(t, True)

    def r(self, t):
        r = self.memo.get(t)
        if r is None:
            r = self.memo[t] = self._r(t)
        return r

    def _r(self, t):
        o = t.op
        if o == 'const' and isinstance(t.args[0], (int, Fraction)):
            return z3.RealVal(str(Fraction(t.args[0])))
        if o == 'add':
            return z3.Sum([self.r(x) for x in t.args])
        if o == 'mul':
            c, rest = Fraction(1), []
            for x in t.args:
                if x.op == 'const' and isinstance(x.args[0], (int, Fraction)):
                    c *= Fraction(x.args[0])
                else:
                    rest.append(x)
            if len(rest) == 1:
                return z3.RealVal(str(c)) * self.r(rest[0])
        if o == 'ite':
            return z3.If(self.b(t.args[0]), self.r(t.args[1]), self.r(t.args[2]))
        return self.opaque(t, False)

    def deny(self, g):
        if g.op == 'or':
            for x in g.args:
                self.deny(x)
        elif g.op == 'not':
            self.fact(g.args[0])
        else:
            self.s.add(z3.Not(self.b(g)))

    def entails(self, g):
        self.s.push()
        try:
            self.deny(g)
            return self.s.check() == z3.unsat
        except z3.Z3Exception:
            return False
        finally:
            self.s.pop()
