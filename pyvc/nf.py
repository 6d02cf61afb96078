"""Normal forms over the reals and the proof context.

A term is normalised to a Laurent polynomial with rational coefficients over *atoms* (variables, pi, sin/cos/exp/
log/floor/... of normal forms, fractional powers, array elements, binder atoms such as Sum, uninterpreted
applications, undecided conditionals).  Two terms are equal when their difference clears to the zero polynomial;
everything else goes to z3 with one real (or integer) unknown per atom plus the axioms listed in `_axioms`.
"""
import math
import random
import sys
import time
from fractions import Fraction

sys.setrecursionlimit(20000)
from . import terms as tm
from .terms import T, F0, F1
import z3

HALF = Fraction(1, 2)
STATS = {'z3_calls': 0, 'z3_time': 0.0, 'z3_unknown': 0}


class TooHard(Exception):
    pass


class Atom(object):
    __slots__ = ('id', 'kind', 'data', 'vs', 'val', 'integer', 'z', 'name')

    def __repr__(self):
        return self.name


def pkey(p):
    return frozenset(p.items())


class Ctx(object):
    def __init__(self, facts=(), z3_timeout=4000, elem_facts=None):
        self.facts = []
        self.sub = {}
        self.atoms = []
        self.exact = {}
        self.byfn = {}
        self.nfcache = {}
        self.zt = z3_timeout
        self.scope = ()
        self.signcache = {}
        self.deccache = {}
        self.elem = elem_facts or {}
        self.alias = {}
        self.aliasname = {}
        self.extra = []            # element facts instantiated for sel atoms, as T
        self.extra_seen = set()
        self.allfacts = []
        self.skolems = []
        self.nonzero = set()
        self.zfacts = None
        self.infeasible = False
        self.deadline = None
        for f in facts:
            self._add_fact(f)

    # -- facts ---------------------------------------------------------------------------------------------
    def _add_fact(self, f):
        if f.op == 'and':
            for x in f.args:
                self._add_fact(x)
            return
        if f is tm.FALSE:
            self.infeasible = True
        if f is tm.TRUE:
            return
        if f.op == 'all':
            self.allfacts.append(f)
            return
        if f.op == 'any' or (f.op == 'not' and f.args[0].op == 'all'):
            bv, n, body = f.args if f.op == 'any' else f.args[0].args
            if f.op == 'not':
                body = tm.not_(body)
            k = tm.var('sk%d' % f.tid, True)
            if k not in self.skolems:
                self.skolems.append(k)
                for x in (tm.le(tm.ZERO, k), tm.lt(k, n), tm.subst(body, {bv: k})):
                    self._add_fact(x)
        if f.op == 'not' and f.args[0].op == 'any':
            bv, n, body = f.args[0].args
            g = tm.mk('all', bv, n, tm.not_(body))
            if g not in self.allfacts:
                self.allfacts.append(g)
        if f.op == 'eq':
            a, b = f.args
            for x, y in ((a, b), (b, a)):
                if x.op == 'var' and x not in self.sub and not (x.vs & y.vs) and self._safe_sub(x, y):
                    self.sub[x] = y
                    break
        self.facts.append(f)

    def _safe_sub(self, x, y):
        # no cycles through existing substitutions
        seen, todo = set(), [y]
        while todo:
            t = todo.pop()
            for s in tm.subterms(t):
                if s is x:
                    return False
                if s in self.sub and s not in seen:
                    seen.add(s)
                    todo.append(self.sub[s])
        return True

    def extend(self, *facts):
        c = Ctx(self.facts + self.allfacts, self.zt, self.elem)
        c.deadline = self.deadline
        for f in facts:
            c._add_fact(f)
        return c

    # -- atoms ---------------------------------------------------------------------------------------------
    def _new_atom(self, kind, data, vs, val, integer=False, name=None):
        a = Atom()
        a.id = len(self.atoms)
        a.kind, a.data, a.vs, a.integer = kind, data, vs, integer
        if val is None or val != val or abs(val) == math.inf:
            val = None
        a.val = val
        a.z = None
        a.name = name or '%s%d' % (kind, a.id)
        self.atoms.append(a)
        return a

    def _rand(self, key):
        return random.Random(str(key)).uniform(0.25, 0.85)

    def patom(self, a, e=F1):
        return {((a.id, e),): F1}

    def _abase(self, i):
        a = self.atoms[i]
        return a.data if a.kind == 'comp' else {((i, F1),): F1}

    def pconst(self, c):
        return {(): c} if c else {}

    def atom_exact(self, key, kind, data, vs, val, integer=False, name=None):
        a = self.exact.get(key)
        if a is None:
            a = self._new_atom(kind, data, vs, val, integer, name)
            self.exact[key] = a
        return a

    def pvs(self, p):
        s = frozenset()
        for m in p:
            for i, _ in m:
                s |= self.atoms[i].vs
        return s

    def pval(self, p):
        tot = 0.0
        for m, c in p.items():
            v = float(c)
            for i, e in m:
                x = self.atoms[i].val
                if x is None:
                    return None
                try:
                    v *= x ** float(e)
                except (ZeroDivisionError, OverflowError):
                    return None
                if isinstance(v, complex) or v != v:
                    return None
            tot += v
        return tot

    def pscaleval(self, p):
        tot = 0.0
        for m, c in p.items():
            v = abs(float(c))
            for i, e in m:
                x = self.atoms[i].val
                try:
                    v *= abs(x) ** float(e)
                except (ZeroDivisionError, OverflowError):
                    return 1.0
            tot += v
        return tot

    # -- polynomial arithmetic -----------------------------------------------------------------------------
    def padd(self, p, q, c=F1):
        if not p and c == 1:
            return q
        r = dict(p)
        for m, k in q.items():
            v = r.get(m, F0) + c * k
            if v:
                r[m] = v
            else:
                r.pop(m, None)
        return r

    def pscale(self, p, c):
        if not c:
            return {}
        return {m: c * k for m, k in p.items()}

    def _merge(self, m1, m2):
        d = dict(m1)
        for i, e in m2:
            d[i] = d.get(i, F0) + e
        return d

    def _reduce(self, d, c):
        """d: atom id -> exponent; returns the polynomial c * prod."""
        factors = []
        out = []
        for i in sorted(d):
            e = d[i]
            if not e:
                continue
            a = self.atoms[i]
            k = a.kind
            if k == 'prime':
                n = e.numerator // e.denominator
                c = c * Fraction(a.data) ** n
                e = e - n
                if e:
                    out.append((i, e))
            elif k == 'comp' and e >= 1:
                n = e.numerator // e.denominator
                factors.append((a.data, n))
                if e - n:
                    out.append((i, e - n))
            elif k == 'sin' and e >= 2 and e.denominator == 1:
                n = int(e) // 2
                ca = self._fnatom('cos', a.data)
                factors.append(({(): F1, ((ca.id, Fraction(2)),): -F1}, n))
                if int(e) % 2:
                    out.append((i, F1))
            else:
                out.append((i, e))
        p = {tuple(out): c}
        for base, n in factors:
            for _ in range(n):
                p = self.pmul(p, base)
        return p

    def pmul(self, p, q):
        if not p or not q:
            return {}
        if len(p) * len(q) > 60000:
            raise TooHard('polynomial too large')
        if self.deadline and time.time() > self.deadline:
            raise TooHard('deadline')
        if len(q) == 1:
            (m, k), = q.items()
            if m == ():
                return self.pscale(p, k)
        r = {}
        for m1, c1 in p.items():
            for m2, c2 in q.items():
                s = self._reduce(self._merge(m1, m2), c1 * c2)
                for m, k in s.items():
                    v = r.get(m, F0) + k
                    if v:
                        r[m] = v
                    else:
                        r.pop(m, None)
        return r

    def ppow_int(self, p, n):
        if n < 0:
            return self.ppow_int(self.pinv(p), -n)
        r = {(): F1}
        b = p
        while n:
            if n & 1:
                r = self.pmul(r, b)
            n >>= 1
            if n:
                b = self.pmul(b, b)
        return r

    def _content(self, p):
        """positive rational content and a canonical representative."""
        lead = abs(p[min(p, key=lambda m: (len(m), m))])
        return lead, ({m: c / lead for m, c in p.items()} if lead != 1 else p)

    def _comp(self, p):
        key = ('comp', pkey(p))
        a = self.exact.get(key)
        if a is None:
            a = self._new_atom('comp', p, self.pvs(p), self.pval(p), False)
            self.exact[key] = a
        return a

    def pinv(self, p):
        if not p:
            raise ZeroDivisionError('division by zero term')
        if len(p) == 1:
            (m, c), = p.items()
            return self._reduce({i: -e for i, e in m}, 1 / c)
        lead, q = self._content(p)
        low = q[min(q, key=lambda m: (len(m), m))]
        sgn = F1
        if low < 0:
            sgn = -F1
            q = self.pscale(q, -F1)
        return {((self._comp(q).id, -F1),): sgn / lead}

    # -- powers --------------------------------------------------------------------------------------------
    def _const_pow(self, c, r):
        """c>0 rational to a rational power."""
        p = {(): F1}
        for n, s in ((c.numerator, 1), (c.denominator, -1)):
            d = 2
            while d * d <= n and d < 100000:
                k = 0
                while n % d == 0:
                    n //= d
                    k += 1
                if k:
                    a = self.atom_exact(('prime', d), 'prime', d, frozenset(), float(d), True, str(d))
                    p = self.pmul(p, self._reduce({a.id: s * k * r}, F1))
                d += 1
            if n > 1:
                a = self.atom_exact(('prime', n), 'prime', n, frozenset(), float(n), True, str(n))
                p = self.pmul(p, self._reduce({a.id: s * r}, F1))
        return p

    def ppow(self, p, r):
        if r.denominator == 1:
            return self.ppow_int(p, int(r))
        if not p:
            if r > 0:
                return {}
            raise ZeroDivisionError('0 to a negative power')
        if len(p) > 1:
            fac = self._factor(p)
        else:
            (m, c), = p.items()
            fac = [(self.pconst(c), F1)] + [(self._abase(i), e) for i, e in m]
        good = {(): F1}
        rest = {(): F1}
        sign_neg = False
        for b, e in fac:
            if len(b) == 1 and () in b:
                c = b[()]
                if c < 0:
                    rest = self.pscale(rest, -F1)
                    c = -c
                good = self.pmul(good, self._const_pow(c, r * e))
                continue
            s = self.sign(b)
            if s in ('+', '0+'):
                good = self.pmul(good, self._pow_atomic(b, r * e))
            elif s == '-' and e.denominator == 1:
                if int(e) % 2:
                    rest = self.pscale(rest, -F1)
                good = self.pmul(good, self._pow_atomic(self.pscale(b, -F1), r * e))
            else:
                rest = self.pmul(rest, self.ppow(b, e) if e.denominator == 1 else self._pow_atomic(b, e))
        if len(rest) == 1 and () in rest and rest[()] == 1:
            return good
        if len(rest) == 1 and () in rest:
            if self.infeasible or self._z3_valid(z3.BoolVal(False), 1000, self.pvs(p)):
                self.infeasible = True
                return good
            raise TooHard('fractional power of a negative number')
        # even powers: |x|
        return self.pmul(good, self._pow_atomic(rest, r))

    def _pow_atomic(self, b, r):
        """b ** r for a base that is not to be split further."""
        if r.denominator == 1:
            return self.ppow_int(b, int(r))
        if len(b) == 1:
            (m, c), = b.items()
            if c == 1 and len(m) == 1 and self.atoms[m[0][0]].kind != 'var?':
                i, e = m[0]
                if e == 1:
                    return self._reduce({i: r}, F1)
        lead, q = self._content(b)
        p = self._const_pow(lead, r) if lead != 1 else {(): F1}
        # semantic lookup among known composites
        a = self._find_comp(q)
        return self.pmul(p, self._reduce({a.id: r}, F1))

    def _find_comp(self, q):
        key = ('comp', pkey(q))
        a = self.exact.get(key)
        if a is not None:
            return a
        v = self.pval(q)
        if v is not None:
            for b in self.atoms:
                if b.kind == 'comp' and b.val is not None and abs(b.val - v) <= 1e-7 * (1 + abs(v)):
                    if self.iszero(self.padd(q, b.data, -F1)):
                        self.exact[key] = b
                        return b
        return self._comp(q)

    def _factor(self, p):
        """Factor a polynomial with integer exponents over its atoms (sympy); fall back to [p]."""
        # pull out the common monomial (with possibly negative / fractional exponents)
        common = None
        for m in p:
            d = dict(m)
            if common is None:
                common = d
            else:
                common = {i: min(common.get(i, F0), d.get(i, F0)) for i in set(common) | set(d)}
        common = {i: e for i, e in common.items() if e}
        inv = {i: -e for i, e in common.items()}
        q = {}
        for m, c in p.items():
            d = self._merge(m, tuple(inv.items()))
            q[tuple(sorted((i, e) for i, e in d.items() if e))] = c
        out = [(self._abase(i), e) for i, e in common.items()]
        ids = sorted({i for m in q for i, _ in m})
        if len(q) == 1:
            (m, c), = q.items()
            return out + [(self.pconst(c), F1)]
        if any(e.denominator != 1 or e < 0 for m in q for _, e in m) or len(ids) > 6 or len(q) > 40:
            lead, q1 = self._content(q)
            return out + [(self.pconst(lead), F1), (q1, F1)]
        import sympy
        syms = {i: sympy.Symbol('a%d' % i) for i in ids}
        back = {('a%d' % i): i for i in ids}
        R = sympy.QQ.old_poly_ring(*[syms[i] for i in ids]) if False else None
        expr = sympy.Add(*[sympy.Rational(c.numerator, c.denominator) *
                           sympy.Mul(*[syms[i] ** int(e) for i, e in m]) for m, c in q.items()])
        c0, facs = sympy.factor_list(expr)
        out.append((self.pconst(Fraction(int(c0.p), int(c0.q))), F1))
        for f, k in facs:
            pol = sympy.Poly(f, *[syms[i] for i in ids])
            b = {}
            for mon, co in pol.terms():
                m = tuple((i, Fraction(int(e))) for i, e in zip(ids, mon) if e)
                b[m] = Fraction(int(co.p), int(co.q))
            out.append((b, Fraction(k)))
        return out

    # -- sign ----------------------------------------------------------------------------------------------
    def sign(self, p):
        old = getattr(self, '_used_all', set())
        try:
            return self._sign1(p)
        finally:
            self._used_all = old

    def _sign1(self, p):
        """'+', '0+' (nonneg), '-', or None."""
        if not p:
            return '0+'
        key = (pkey(p), self.scope)
        if key in self.signcache:
            return self.signcache[key]
        r = None
        syn = self._synsign(p)
        if syn:
            r = syn
        elif self._known(self._polykey(self.pscale(p, -F1))):
            r = '+'
        elif self._known(self._polykey(p)) is False:
            r = '0+'
        else:
            self._used_all = set()
            z = self._z3poly(p)
            for vs in (self.pvs(p), None):
                if self._z3_valid(z > 0, 1200, vs):
                    r = '+'
                elif self._z3_valid(z >= 0, 1200, vs):
                    r = '0+'
                elif self._z3_valid(z < 0, 1200, vs):
                    r = '-'
                    if self._z3_valid(z3.BoolVal(False), 1200, vs):
                        self.infeasible = True      # the facts contradict each other
                        r = '+'
                if r:
                    break
        self.signcache[key] = r
        return r

    def _atomsign(self, a):
        old = getattr(self, '_used_all', set())
        try:
            return self._atomsign1(a)
        finally:
            self._used_all = old

    def _atomsign1(self, a):
        if a.kind in ('pi', 'prime', 'exp'):
            return '+'
        if a.kind == 'count':
            return '0+'
        if a.kind in ('var', 'sel', 'comp') and (a.id, self.scope) not in self.signcache:
            self.signcache[(a.id, self.scope)] = None     # guards recursion
            r = None
            q = self._quicksign(a) if a.kind != 'comp' else None
            if q == '+':
                r = q
            elif a.kind == 'comp':
                r = self.sign(a.data)
            else:
                self._used_all = set()
                z = self._z3poly(self.patom(a))
                if self._z3_valid(z > 0, 800, None, True):
                    r = '+'
                elif q or self._z3_valid(z >= 0, 800, None, True):
                    r = '0+'
            self.signcache[(a.id, self.scope)] = r
        return self.signcache.get((a.id, self.scope))

    def _quicksign(self, a):
        """the sign of a variable that some fact states outright"""
        t = a.data
        fs = list(self.facts) + list(self.scope)
        if t.op == 'sel':
            f = self.elem.get(t.args[0])
            if f is not None:
                fs = list(f(*t.args[1:])) + fs
        r = None
        while fs:
            f = fs.pop(0)
            if f.op == 'and':
                fs = list(f.args) + fs
            elif f.op in ('lt', 'le') and f.args[1] is t and f.args[0].op == 'const':
                c = f.args[0].args[0]
                if c > 0 or (c == 0 and f.op == 'lt'):
                    return '+'
                if c == 0:
                    r = '0+'
        return r

    def _synsign(self, p):
        """purely syntactic: sum of monomials that are each of one sign."""
        strict = False
        sg = None
        for m, c in p.items():
            s = 1 if c > 0 else -1
            pos = True
            for i, e in m:
                if e.denominator == 1 and int(e) % 2 == 0:
                    pos = pos and False if self._atomsign(self.atoms[i]) != '+' else pos
                    continue
                a = self._atomsign(self.atoms[i])
                if a == '+':
                    continue
                if a == '0+' or (e.denominator != 1 and e > 0 and e.denominator % 2 == 0):
                    pos = False
                    continue
                return None
            if sg is None:
                sg = s
            elif sg != s:
                return None
            strict = strict or pos
        if sg == 1:
            return '+' if strict else '0+'
        return '-' if strict else None

    # -- zero test -----------------------------------------------------------------------------------------
    def iszero(self, p):
        if not p:
            return True
        v = self.pval(p)
        if v is not None and abs(v) > 1e-6 * (1e-30 + self.pscaleval(p)):
            return False
        for _ in range(60):
            if not p:
                return True
            if len(p) > 6000:
                return False
            worst = None
            for m in p:
                for i, e in m:
                    if e < 0 and self.atoms[i].kind in ('comp', 'sin', 'prime'):
                        if worst is None or (e, i) < worst:
                            worst = (e, i)
            if worst is None:
                break
            e, i = worst
            k = -(e.numerator // e.denominator)
            q = {((i, Fraction(k)),): F1}
            p = self.pmul_raw(p, q)
        if not p:
            return True
        return self._merge_sums(p)

    def pmul_raw(self, p, q):
        # exponents of q's atom are added *before* reduction, so no negative powers are expanded early
        return self.pmul(p, q)

    def _merge_sums(self, p):
        groups = {}
        rest = {}
        for m, c in p.items():
            ss = [(i, e) for i, e in m if self.atoms[i].kind == 'sum']
            if not ss:
                rest[m] = c
                continue
            if len(ss) != 1 or ss[0][1] != 1:
                return False
            i = ss[0][0]
            a = self.atoms[i]
            nkey, bv = a.data[0], a.data[1]
            mm = tuple(x for x in m if x[0] != i)
            body = self.pmul({mm: c}, a.data[2])
            g = groups.setdefault((nkey, bv), {})
            groups[(nkey, bv)] = self.padd(g, body)
        if not groups:
            return False
        if rest:
            if not self.iszero(rest):
                return False
        return all(self.iszero(b) for b in groups.values())

    # -- function atoms ------------------------------------------------------------------------------------
    def pdiff(self, x, y):
        """x - y, where coefficients that agree up to the rounding of a float constant cancel"""
        d = self.padd(x, y, -F1)
        if d and any(m in x and m in y for m in d):
            d = {m: c for m, c in d.items() if not (m in x and m in y and abs(c) * 10**13 <= abs(x[m]))}
        if () in d and len(d) > 1 and d[()].denominator > 10**8:
            # a float constant against the closed expression it is the rounded value of
            closed = {m: c for m, c in d.items() if all(self.atoms[i].kind in ('log', 'exp', 'pi', 'comp', 'prime', 'const')
                                                        and not self.atoms[i].vs for i, _ in m)}
            v = self.pval(closed) if len(closed) > 1 else None
            if v is not None and abs(v) <= 1e-13 * self.pscaleval(closed):
                d = {m: c for m, c in d.items() if m not in closed}
        return d

    def _fnatom(self, name, *args, **kw):
        """args: polynomials (semantic lookup)."""
        key = (name,) + tuple(pkey(p) if isinstance(p, dict) else p for p in args)
        a = self.exact.get(key)
        if a is not None:
            return a
        vals = [self.pval(p) if isinstance(p, dict) else None for p in args]
        fam = self.byfn.setdefault((name, len(args), tuple(p for p in args if not isinstance(p, dict))), [])
        for b, bargs, bvals in fam:
            ok = True
            for v, w in zip(vals, bvals):
                if v is not None and w is not None and abs(v - w) > 1e-7 * (1 + abs(v)):
                    ok = False
                    break
            if not ok:
                continue
            if all(pkey(x) == pkey(y) or self.iszero(self.pdiff(x, y))
                   for x, y in zip(args, bargs) if isinstance(x, dict)):
                self.exact[key] = b
                return b
        val = None
        try:
            if name in ('sin', 'cos', 'exp', 'log', 'atan', 'atan2', 'floor') and None not in vals:
                val = {'atan2': math.atan2, 'atan': math.atan}.get(name, getattr(math, name, None))(*vals)
            elif kw.get('opaque', True):
                val = self._rand((name, len(self.atoms)))
        except (ValueError, OverflowError):
            val = None
        if name not in ('sin', 'cos', 'exp', 'log', 'atan', 'atan2', 'floor'):
            val = self._rand((name, len(self.atoms)))
        vs = frozenset()
        for p in args:
            if isinstance(p, dict):
                vs |= self.pvs(p)
        vs |= kw.get('vs', frozenset())
        a = self._new_atom(name if name in ('sin', 'cos', 'exp', 'log', 'atan', 'atan2', 'floor') else 'fn',
                           args[0] if len(args) == 1 else args, vs, val,
                           kw.get('integer', name == 'floor'), name='%s#%d' % (name, len(self.atoms)))
        self.exact[key] = a
        fam.append((a, args, vals))
        return a

    def pfn(self, name, *args, **kw):
        return self.patom(self._fnatom(name, *args, **kw))

    def pisint(self, p):
        return all(c.denominator == 1 and all(e.denominator == 1 and e > 0 and self.atoms[i].integer for i, e in m)
                   for m, c in p.items())

    def _cancel(self, p):
        """divide out a composite denominator that divides its numerator exactly"""
        done = set()
        while True:
            den = {i for m in p for i, e in m if e == -1 and self.atoms[i].kind == 'comp'} - done
            if not den:
                return p
            i = min(den)
            done.add(i)
            num, other = {}, {}
            for m, c in p.items():
                if (i, -F1) in m:
                    num[tuple(x for x in m if x[0] != i)] = c
                else:
                    other[m] = c
            d = self.atoms[i].data
            lead = max(d)
            quo = {}
            for _ in range(30):
                if not num:
                    break
                for m, c in sorted(num.items()):
                    q = dict(m)
                    for a, e in lead:
                        q[a] = q.get(a, F0) - e
                    if all(q[a] >= 0 for a, e in lead):
                        q = {tuple(sorted((a, e) for a, e in q.items() if e)): c / d[lead]}
                        break
                else:
                    break
                quo = self.padd(quo, q)
                num = self.padd(num, self.pmul(q, d), -F1)
            if not num:
                p = self.padd(other, quo)

    def pfloor(self, p):
        p = self._cancel(p)
        ip, rest = {}, {}
        for m, c in p.items():
            if all(e.denominator == 1 and e > 0 and self.atoms[i].integer for i, e in m):
                n = c.numerator // c.denominator if m == () else (int(c) if c.denominator == 1 else 0)
                if n:
                    ip[m] = Fraction(n)
                if c - n:
                    rest[m] = c - n
            else:
                rest[m] = c
        if not rest:
            return ip
        if list(rest) == [()]:
            return ip       # 0 < frac < 1
        if len(rest) <= 2 and self.sign(rest) in ('+', '0+') and self.sign(self.padd(rest, self.pconst(1), -F1)) == '-':
            return ip
        return self.padd(ip, self.pfn('floor', rest))

    # -- trigonometry --------------------------------------------------------------------------------------
    def _angle_pieces(self, p):
        """split an angle into (multiple of pi/2 as int k) and a list of (base poly, integer multiple)."""
        pi = self._pi()
        quarter = F0
        pieces = []
        for m, c in sorted(p.items()):
            d = dict(m)
            if d.get(pi.id) == 1:
                rest = {i: e for i, e in d.items() if i != pi.id}
                if not rest:
                    quarter += 2 * c
                    continue
                if all(e.denominator == 1 and e > 0 and self.atoms[i].integer for i, e in rest.items()):
                    if c.denominator == 1 and int(c) % 2 == 0:
                        continue            # 2*pi*integer
            pieces.append((m, c))
        k = quarter.numerator // quarter.denominator
        frac = quarter - k
        if frac:
            pieces.append((((pi.id, F1),), frac / 2))
        out = []
        for m, c in pieces:
            bare = len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind in ('atan', 'atan2')
            if bare:
                D = c.denominator
                out.append(({m: Fraction(1, D)}, int(c.numerator), self.atoms[m[0][0]] if D == 1 else None))
            else:
                D = 2 if c.denominator in (1, 2) else c.denominator
                n = c * D
                if abs(n) > 12:
                    out.append(({m: abs(c)}, 1 if c > 0 else -1, None))
                else:
                    out.append(({m: Fraction(1, D)}, int(n), None))
        return k % 4, out

    def _base_cs(self, base, at):
        if at is not None and at.kind == 'atan':
            z = at.data
            d = self.padd({(): F1}, self.pmul(z, z))
            c = self.ppow(d, -HALF)
            return c, self.pmul(z, c)
        if at is not None and at.kind == 'atan2':
            y, x = at.data
            d = self.ppow(self.padd(self.pmul(x, x), self.pmul(y, y)), -HALF)
            return self.pmul(x, d), self.pmul(y, d)
        return self.pfn('cos', base), self.pfn('sin', base)

    def cos_sin(self, p):
        k, pieces = self._angle_pieces(p)
        C, S = {(): F1}, {}
        for base, n, at in pieces:
            c1, s1 = self._base_cs(base, at)
            c, s = {(): F1}, {}
            if n == 2 * (abs(n) // 2) and at is not None and abs(n) == 2:
                # double angle of an inverse function stays rational
                c2, s2 = self.padd(self.pmul(c1, c1), self.pmul(s1, s1), -F1), self.pscale(self.pmul(c1, s1), Fraction(2))
                c, s = c2, (s2 if n > 0 else self.pscale(s2, -F1))
            else:
                if n < 0:
                    s1 = self.pscale(s1, -F1)
                for _ in range(abs(n)):
                    c, s = (self.padd(self.pmul(c, c1), self.pmul(s, s1), -F1),
                            self.padd(self.pmul(s, c1), self.pmul(c, s1)))
            C, S = (self.padd(self.pmul(C, c), self.pmul(S, s), -F1),
                    self.padd(self.pmul(S, c), self.pmul(C, s)))
        for _ in range(k):
            C, S = self.pscale(S, -F1), C
        return C, S

    def _pi(self):
        return self.atom_exact(('pi',), 'pi', None, frozenset(), math.pi, False, 'pi')

    def pexp(self, p):
        r = {(): F1}
        for m, c in sorted(p.items()):
            if len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'log':
                r = self.pmul(r, self.ppow(self.atoms[m[0][0]].data, c))
            elif m == ():
                a = self._fnatom('exp', {(): F1})
                r = self.pmul(r, self._reduce({a.id: c}, F1))
            else:
                a = self._fnatom('exp', {m: F1})
                r = self.pmul(r, self._reduce({a.id: c}, F1))
        return r

    def plog(self, p):
        if not p:
            raise ZeroDivisionError('log of zero')
        if len(p) > 1:
            fac = self._factor(p)
        else:
            (m, c), = p.items()
            fac = [(self.pconst(c), F1)] + [(self._abase(i), e) for i, e in m]
        out = {}
        rest = {(): F1}
        for b, e in fac:
            if len(b) == 1 and () in b:
                c = b[()]
                if c < 0:
                    rest = self.pscale(rest, -F1)
                    c = -c
                for n, s in ((c.numerator, 1), (c.denominator, -1)):
                    d = 2
                    while n > 1:
                        if d * d > n or d > 100000:
                            d = n
                        k = 0
                        while n % d == 0:
                            n //= d
                            k += 1
                        if k:
                            pr = self.atom_exact(('prime', d), 'prime', d, frozenset(), float(d), True, str(d))
                            out = self.padd(out, self.pscale(self.pfn('log', self.patom(pr)), s * k * e))
                        d += 1
                continue
            s = self.sign(b)
            if s == '-' and e.denominator == 1:
                if int(e) % 2:
                    rest = self.pscale(rest, -F1)
                b, s = self.pscale(b, -F1), '+'
            if s == '+' or s == '0+':
                if len(b) == 1:
                    (m, c), = b.items()
                    if c == 1 and len(m) == 1 and self.atoms[m[0][0]].kind == 'exp':
                        out = self.padd(out, self.pscale(self.atoms[m[0][0]].data, m[0][1] * e))
                        continue
                if len(b) > 1:
                    lead, q = self._content(b)
                    if lead != 1:
                        out = self.padd(out, self.pscale(self.plog(self.pconst(lead)), e))
                    b = q
                out = self.padd(out, self.pscale(self.pfn('log', b), e))
            else:
                rest = self.pmul(rest, self.ppow(b, e) if e.denominator == 1 else self._pow_atomic(b, e))
        if rest == {(): F1}:
            return out
        return self.padd(out, self.pfn('log', rest))

    # -- term -> normal form -------------------------------------------------------------------------------
    def nf(self, t):
        key = (t, self.scope) if any(v.startswith('#') for v in t.vs) else (t, ())
        r = self.nfcache.get(key)
        if r is None:
            r = self._nf(t)
            self.nfcache[key] = r
        return r

    def _elem_fact(self, name, idx):
        f = self.elem.get(name)
        if f is None:
            return
        key = (name, idx)
        if key in self.extra_seen:
            return
        self.extra_seen.add(key)
        for fact in f(*idx):
            self.extra.append(fact)

    def _nf(self, t):
        o, a = t.op, t.args
        if o == 'const':
            return self.pconst(a[0])
        if o == 'pi':
            return self.patom(self._pi())
        if o == 'var':
            if a[0][0] == '@':
                return self.alias[a[0]]
            s = self.sub.get(t)
            if s is not None:
                return self.nf(s)
            return self.patom(self.atom_exact(('var', a[0]), 'var', t, t.vs, self._rand(a[0]), bool(a[1]), a[0]))
        if o == 'add':
            # flatten long chains
            acc = {}
            stack = [t]
            while stack:
                x = stack.pop()
                if x.op == 'add':
                    stack.extend(x.args)
                else:
                    acc = self.padd(acc, self.nf(x))
            return acc
        if o == 'mul':
            return self.pmul(self.nf(a[0]), self.nf(a[1]))
        if o == 'div':
            return self.pmul(self.nf(a[0]), self.pinv(self.nf(a[1])))
        if o == 'pow':
            e = self.nf(a[1])
            if not e:
                return {(): F1}
            if len(e) == 1 and () in e:
                return self.ppow(self.nf(a[0]), e[()])
            return self.pexp(self.pmul(e, self.plog(self.nf(a[0]))))
        if o == 'fn':
            name = a[0]
            ps = [self.nf(x) for x in a[1:]]
            if name == 'cos':
                return self.cos_sin(ps[0])[0]
            if name == 'sin':
                return self.cos_sin(ps[0])[1]
            if name == 'tan':
                # tan(x) = (1 - cos 2x)/sin 2x would need 2x != 0; keep sin/cos
                c, s = self.cos_sin(ps[0])
                bare = self._bare_atan(ps[0])
                if bare is not None:
                    return bare
                return self.pmul(s, self.pinv(c))
            if name == 'exp':
                return self.pexp(ps[0])
            if name == 'log':
                return self.plog(ps[0])
            if name == 'floor':
                return self.pfloor(ps[0])
            if name == 'atan':
                if not ps[0]:
                    return {}
                p = ps[0]
                low = p[min(p, key=lambda m: (len(m), m))]
                if low < 0:
                    return self.pscale(self.pfn('atan', self.pscale(p, -F1)), -F1)
                return self.pfn('atan', p)
            if name == 'atan2':
                return self.pfn('atan2', *ps)
            return self.pfn('fn:' + name, *ps)
        if o == 'app':
            return self._nf_app(t)
        if o == 'sel':
            idx = tuple(self.nf(x) for x in a[1:])
            key = ('sel', a[0]) + tuple(pkey(p) for p in idx)
            at = self.exact.get(key)
            if at is None:
                at = self._new_atom('sel', t, t.vs, self._rand(key if not any(self.pvs(p) for p in idx)
                                                               else (a[0], [self.pval(p) for p in idx])),
                                    a[0].startswith('int:'), '%s[%d]' % (a[0], len(self.atoms)))
                self.exact[key] = at
                self._elem_fact(a[0], a[1:])
            return self.patom(at)
        if o == 'ite':
            return self._nf_ite(t)
        if o == 'sum':
            return self._nf_sum(t)
        if o == 'count':
            bv, n, body = a
            d = self._depth(body) + 1
            cv = tm.var('#%d' % d, True)
            b2 = tm.subst(body, {bv: cv})
            k = self._condkey(b2)
            if k is True:
                return self.nf(n)
            if k is False:
                return {}
            at = self.atom_exact(('count', pkey(self.nf(n)), k), 'count', (n, cv, b2), t.vs,
                                 self._rand(('count', len(self.atoms))), True)
            return self.patom(at)
        if tm.is_bool(t):
            return self.nf(tm.ite(t, tm.ONE, tm.ZERO))
        raise TooHard('nf: ' + o)

    def _bare_atan(self, p):
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1 and self.atoms[m[0][0]].kind == 'atan':
                return self.atoms[m[0][0]].data
        return None

    def _depth(self, t):
        d = 0
        for s in tm.subterms(t):
            if s.op == 'var' and s.args[0].startswith('#'):
                d = max(d, int(s.args[0][1:]))
            elif s.op in ('sum', 'count', 'all', 'any', 'lam'):
                d = max(d, self._bdepth(s))
        return d

    def _bdepth(self, t):
        return 1 + self._depth(t.args[-1])

    def _nf_app(self, t):
        a = t.args
        args = []
        for x in a[1:]:
            if not isinstance(x, T):
                args.append(('c', x))
            elif x.op == 'lam':
                args.append(self._nf_lam(x))
            elif tm.is_bool(x):
                args.append(('b', self._condkey(x)))
            else:
                args.append(self.nf(x))
        integer = a[0].startswith('int:')
        return self.pfn('app:' + a[0], *args, vs=t.vs, integer=integer)

    def _nf_lam(self, x):
        d = self._depth(x)
        n = 0
        y = x
        bvs = []
        while y.op == 'lam':
            bvs.append(y.args[0])
            y = y.args[1]
        m = {}
        for j, b in enumerate(bvs):
            m[b] = tm.var('#%d' % (d + 1 + j + 1), True)
        body = tm.subst(y, m)
        p = self.nf(body)
        return p

    def _nf_ite(self, t):
        c, x, y = t.args
        d = self.decide(c)
        if d is True:
            return self.nf(x)
        if d is False:
            return self.nf(y)
        px, py = self.nf(x), self.nf(y)
        if pkey(px) == pkey(py) or self.iszero(self.padd(px, py, -F1)):
            return px
        pos = True
        while c.op == 'not':
            c = c.args[0]
            pos = not pos
        if c.op == 'le':
            c = tm.lt(c.args[1], c.args[0])
            pos = not pos
        if not pos:
            px, py = py, px
        k = self._condkey(c)
        if k is True:
            return px
        if k is False:
            return py
        # difference form: y + ite(c, x-y, 0)
        diff = self.padd(px, py, -F1)
        at = self._fnatom('ite', ('cond', k), diff, vs=t.vs)
        at.data = (c, diff)
        at.kind = 'ite'
        return self.padd(py, self.patom(at))

    def _closed_out(self, bv, body):
        """name the closed factors of a summand that contain a sum themselves: the level of the bound variable then
        does not depend on them"""
        memo = {}

        def walk(x):
            if x in memo:
                return memo[x]
            if x.op not in ('add', 'mul', 'div', 'pow', 'ite', 'sum', 'fn') or tm.is_bool(x):
                r = x
            elif not any(v.startswith('#') for v in x.vs) and not any(v == bv.args[0] for v in x.vs):
                r = x
                if any(y.op == 'sum' for y in tm.subterms(x)):
                    p = self.nf(x)
                    k = pkey(p)
                    nm = self.aliasname.get(k)
                    if nm is None:
                        nm = self.aliasname[k] = '@%d' % len(self.aliasname)
                        self.alias[nm] = p
                    r = tm.var(nm, False)
            elif x.op == 'sum':
                r = x
            else:
                kids = [walk(y) if isinstance(y, tm.T) and not tm.is_bool(y) else y for y in x.args]
                r = x if all(i is j for i, j in zip(kids, x.args)) else tm.rebuild(x.op, tuple(kids))
            memo[x] = r
            return r
        return walk(body)

    def _split_ite(self, p, cvn):
        """write ite(c, d, 0) as d * [c] in a summand (so that factors of d free of the bound variable leave the sum)"""
        for _ in range(12):
            hit = False
            out = {}
            for m, c in p.items():
                got = None
                for a, e in m:
                    at = self.atoms[a]
                    if at.kind == 'ite' and e > 0 and cvn in at.vs and (at.data[1] != {(): F1} or e != 1):
                        got = (a, e, at)
                        break
                if got is None:
                    out = self.padd(out, {m: c})
                    continue
                hit = True
                a, e, at = got
                if at.data[1] == {(): F1}:
                    repl = self.patom(at)
                else:
                    cond, diff = at.data
                    k = self._condkey(cond)
                    if isinstance(k, bool):
                        return p
                    one = self._fnatom('ite', ('cond', k), {(): F1}, vs=at.vs)
                    if one.kind != 'ite':
                        one.data = (cond, {(): F1})
                        one.kind = 'ite'
                    repl = self.patom(one)
                    for _i in range(int(e)):
                        repl = self.pmul(repl, diff)
                rest = tuple(x for x in m if x[0] != a)
                out = self.padd(out, self.pmul({rest: c}, repl))
            p = out
            if not hit:
                break
        return p

    def _nf_sum(self, t):
        bv, n, body = t.args
        body = self._closed_out(bv, body)
        d = self._depth(body) + 1
        cv = tm.var('#%d' % d, True)
        b2 = tm.subst(body, {bv: cv})
        old = self.scope
        self.scope = old + (tm.le(tm.ZERO, cv), tm.lt(cv, n))
        try:
            p = self.nf(b2)
        finally:
            self.scope = old
        pn = self.nf(n)
        nk = pkey(pn)
        cvn = '#%d' % d
        p = self._split_ite(p, cvn)
        out = {}
        groups = {}
        for m, c in p.items():
            dep = tuple(x for x in m if cvn in self.atoms[x[0]].vs)
            ind = tuple(x for x in m if cvn not in self.atoms[x[0]].vs)
            groups.setdefault(dep, {})
            groups[dep] = self.padd(groups[dep], {ind: c})
        for dep, coef in groups.items():
            if dep == ():
                out = self.padd(out, self.pmul(coef, pn))
                continue
            b = {dep: F1}
            # semantic lookup
            key = ('sum', nk, cvn, pkey(b))
            at = self.exact.get(key)
            if at is None:
                v = self.pval(b)
                for x in self.byfn.setdefault(('sum', nk, cvn), []):
                    if v is not None and x.data[3] is not None and abs(v - x.data[3]) > 1e-7 * (1 + abs(v)):
                        continue
                    if self.iszero(self.padd(b, x.data[2], -F1)):
                        at = x
                        break
                if at is None:
                    at = self._new_atom('sum', (nk, cvn, b, v, n), (self.pvs(b) - {cvn}) | n.vs,
                                        self._rand(('sum', len(self.atoms))) if v is None else
                                        4.0 * v + 0.0, False)
                    self.byfn[('sum', nk, cvn)].append(at)
                self.exact[key] = at
            out = self.padd(out, self.pmul(coef, self.patom(at)))
        return out

    # -- conditions ----------------------------------------------------------------------------------------
    def _condkey(self, c):
        """canonical hashable form of a condition, or True/False."""
        o = c.op
        if o == 'true':
            return True
        if o == 'false':
            return False
        if o == 'not':
            k = self._condkey(c.args[0])
            if isinstance(k, bool):
                return not k
            return ('not', k) if k[0] != 'not' else k[1]
        if o in ('and', 'or'):
            ks = [self._condkey(x) for x in c.args]
            if o == 'and':
                if any(k is False for k in ks):
                    return False
                ks = [k for k in ks if k is not True]
                if not ks:
                    return True
            else:
                if any(k is True for k in ks):
                    return True
                ks = [k for k in ks if k is not False]
                if not ks:
                    return False
            if len(ks) == 1:
                return ks[0]
            return (o, frozenset(ks))
        if o == 'le':
            k = self._condkey(tm.lt(c.args[1], c.args[0]))
            if isinstance(k, bool):
                return not k
            return ('not', k)
        if o in ('lt', 'eq'):
            p = self.padd(self.nf(c.args[0]), self.nf(c.args[1]), -F1)
            if not p:
                return o == 'eq'
            if len(p) == 1 and () in p:
                return p[()] < 0 if o == 'lt' else False
            lead, q = self._content(p)
            if o == 'eq':
                low = q[min(q, key=lambda m: (len(m), m))]
                if low < 0:
                    q = self.pscale(q, -F1)
            at = self._fnatom('cond:' + o, q)
            return ('c', at.id)
        if o == 'bvar':
            return ('bvar', c.args[0])
        if o in ('bsel', 'bapp'):
            return (o, c.args[0]) + tuple(pkey(self.nf(x)) if isinstance(x, T) and not tm.is_bool(x) else
                                          (self._condkey(x) if isinstance(x, T) else x) for x in c.args[1:])
        if o in ('all', 'any'):
            bv, n, body = c.args
            d = self._depth(body) + 1
            cv = tm.var('#%d' % d, True)
            k = self._condkey(tm.subst(body, {bv: cv}))
            return (o, pkey(self.nf(n)), k)
        raise TooHard('cond ' + o)

    def decide(self, c):
        old = getattr(self, '_used_all', set())
        try:
            return self._decide1(c)
        finally:
            self._used_all = old

    def _decide1(self, c):
        """True / False when the facts decide c, else None."""
        key = (c, self.scope)
        if key in self.deccache:
            return self.deccache[key]
        self._index_facts()
        if key in self.deccache:
            return self.deccache[key]
        self.deccache[key] = None
        r = None
        k = self._condkey(c)
        if isinstance(k, bool):
            r = k
        else:
            r = self._known(k)
            if r is None and c.op in ('lt', 'le'):
                p = self.padd(self.nf(c.args[0]), self.nf(c.args[1]), -F1)
                sg = self._synsign(p)
                if sg == '+' or (sg == '0+' and c.op == 'lt'):
                    r = False
                elif sg == '-':
                    r = True
                elif c.op == 'le' and self._synsign(self.pscale(p, -F1)):
                    r = True
            self._used_all = set()
            z = self._z3bool(c) if r is None else None
            if z is not None:
                for vs in (c.vs, None):
                    if self._z3_valid(z, 600, vs):
                        r = True
                    elif self._z3_valid(z3.Not(z), 600, vs):
                        r = False
                    if r is not None:
                        break
        self.deccache[key] = r
        return r

    def _polykey(self, p):
        """canonical form of the condition p < 0"""
        if len(p) == 1 and () in p:
            return ('const', p[()] < 0)
        return ('c', self._fnatom('cond:lt', self._content(p)[1]).id)

    def _index_facts(self):
        """normal forms of the facts that are single conditions. Runs before any decision is in progress: a condition that
        is being decided reads as undecided, which must not get into the normal form of a fact"""
        if self.__dict__.get('_knowing'):
            return
        self._knowing = True
        try:
            tab = self.__dict__.setdefault('_facttab', {})
            for f in list(self.facts) + list(self.scope):
                if f in tab:
                    continue
                tab[f] = None
                if f.op in ('lt', 'le', 'not', 'eq', 'bapp', 'bsel') or (f.op == 'and' and all(x.op in ('lt', 'le') for x in f.args)):
                    try:
                        tab[f] = [self._condkey(x) for x in (f.args if f.op == 'and' else (f,))]
                    except TooHard:
                        pass
        finally:
            self._knowing = False

    def _known(self, k):
        """truth of a condition that is literally one of the facts"""
        tab = self.__dict__.setdefault('_facttab', {})
        for f in list(self.facts) + list(self.scope):
            for q in tab.get(f) or ():
                if q == k:
                    return True
                if q == ('not', k) or k == ('not', q):
                    return False
        return None

    # -- z3 ------------------------------------------------------------------------------------------------
    def _zatom(self, i):
        a = self.atoms[i]
        if a.z is None:
            if a.kind == 'prime':
                a.z = z3.RealVal(a.data)
            elif a.integer:
                a.z = z3.ToReal(z3.Int('a%d' % i))
            else:
                a.z = z3.Real('a%d' % i)
        return a.z

    def _zpow(self, i, e, used):
        used.add(i)
        b = self._zatom(i)
        if self.atoms[i].kind == 'comp' and e.denominator == 1:
            pass
        if e.denominator == 1:
            n = int(e)
            r = b
            for _ in range(abs(n) - 1):
                r = r * b
            return r if n > 0 else 1 / r
        used.add((i, e))
        return z3.Real('a%d_p%d_%d' % (i, e.numerator, e.denominator))

    def _zmono(self, m, used):
        """A nonlinear monomial is a fresh variable; its definition is added only in the nonlinear stage."""
        if len(m) == 1 and (m[0][1] == 1 or m[0][1].denominator != 1):
            return self._zpow(m[0][0], m[0][1], used)
        monos = self.__dict__.setdefault('_monos', {})
        if m not in monos:
            us = set()
            zz = None
            for i, e in m:
                f = self._zpow(i, e, us)
                zz = f if zz is None else zz * f
            monos[m] = (z3.Real('mono%d' % len(monos)), zz, us)
        z, zz, us = monos[m]
        used |= us
        used.add(('m', m))
        return z

    def _constbounds(self, m):
        """rational bounds of a monomial in prime and pi atoms, widened by 1e-9 (values are positive)."""
        v = 1.
        for i, e in m:
            a = self.atoms[i]
            v *= (math.pi if a.kind == 'pi' else float(a.data)) ** float(e)
        f = Fraction(v)
        return f * (1 - Fraction(1, 10**9)), f * (1 + Fraction(1, 10**9))

    def _monoaxioms(self, m, out, u2):
        """linear facts about the monomial variable: its sign, and its bounds through its constant part."""
        z = self._monos[m][0]
        cm = tuple((i, e) for i, e in m if self.atoms[i].kind in ('pi', 'prime'))
        vm = tuple(x for x in m if x not in cm)
        rv = lambda f: z3.RealVal('%d/%d' % (f.numerator, f.denominator))
        if not vm:
            lo, hi = self._constbounds(cm)
            out.append(z > rv(lo))
            out.append(z < rv(hi))
            return
        s = self._synsign({vm: F1})
        if s == '+':
            out.append(z > 0)
        elif s == '0+':
            out.append(z >= 0)
        if s in ('+', '0+') and cm:
            lo, hi = self._constbounds(cm)
            b = self._zmono(vm, u2)
            out.append(z >= rv(lo) * b)
            out.append(z <= rv(hi) * b)

    def _z3poly(self, p, used=None):
        if used is None:
            used = set()
        ts = []
        for m, c in p.items():
            z = z3.RealVal('%d/%d' % (c.numerator, c.denominator))
            zz = self._zmono(m, used) if m else None
            if zz is None:
                ts.append(z)
            elif c == 1:
                ts.append(zz)
            else:
                ts.append(z * zz)
        self._last_used = used
        self._used_all = getattr(self, '_used_all', set())
        self._used_all |= used
        if not ts:
            return z3.RealVal(0)
        return z3.Sum(ts) if len(ts) > 1 else ts[0]

    def _z3bool(self, c):
        o = c.op
        if o == 'true':
            return z3.BoolVal(True)
        if o == 'false':
            return z3.BoolVal(False)
        if o == 'not':
            return z3.Not(self._z3bool(c.args[0]))
        if o == 'and':
            return z3.And([self._z3bool(x) for x in c.args])
        if o == 'or':
            return z3.Or([self._z3bool(x) for x in c.args])
        if o in ('lt', 'le', 'eq'):
            p = self.padd(self.nf(c.args[0]), self.nf(c.args[1]), -F1)
            if len(p) <= 1 and () in p or not p:
                v = p.get((), F0)
                return z3.BoolVal({'lt': v < 0, 'le': v <= 0, 'eq': v == 0}[o])
            z = self._z3poly(p)
            return {'lt': z < 0, 'le': z <= 0, 'eq': z == 0}[o]
        k = self._condkey(c)
        if isinstance(k, bool):
            return z3.BoolVal(k)
        neg = False
        while k[0] == 'not':
            k = k[1]
            neg = not neg
        b = z3.Bool('b!%d' % (self.exact.setdefault(('bid', k), len(self.exact))))
        return z3.Not(b) if neg else b

    def _axioms(self, used, out, seen, nl):
        todo = list(used)
        while todo:
            u = todo.pop()
            if u in seen:
                continue
            seen.add(u)
            if isinstance(u, tuple) and u[0] == 'm':
                u2 = set()
                self._monoaxioms(u[1], out, u2)
                todo.extend(x for x in u2 if x not in seen)
                continue
            if isinstance(u, tuple):
                i, e = u
                if i not in seen:
                    todo.append(i)
                v = z3.Real('a%d_p%d_%d' % (i, e.numerator, e.denominator))
                b = self._zatom(i)
                den, num = e.denominator, e.numerator
                lhs = v
                for _ in range(den - 1):
                    lhs = lhs * v
                rhs = b
                for _ in range(abs(num) - 1):
                    rhs = rhs * b
                # only meaningful for b >= 0 (b > 0 for negative powers)
                if self.atoms[i].kind in ('prime', 'pi'):
                    lo, hi = self._constbounds(((i, e),))
                    out.append(v > z3.RealVal('%d/%d' % (lo.numerator, lo.denominator)))
                    out.append(v < z3.RealVal('%d/%d' % (hi.numerator, hi.denominator)))
                if num > 0:
                    out.append(z3.Implies(b >= 0, v >= 0))
                    out.append(z3.Implies(b > 0, v > 0))
                    nl.append(z3.Implies(b >= 0, lhs == rhs))
                else:
                    out.append(z3.Implies(b > 0, v > 0))
                    nl.append(z3.Implies(b > 0, lhs * rhs == 1))
                continue
            a = self.atoms[u]
            z = self._zatom(u)
            k = a.kind
            u2 = set()
            if k == 'pi':
                out.append(z > z3.RealVal('3141592653/1000000000'))
                out.append(z < z3.RealVal('3141592654/1000000000'))
            elif k in ('sin', 'cos'):
                other = self.exact.get(('cos' if k == 'sin' else 'sin', pkey(a.data)))
                out.append(z <= 1)
                out.append(z >= -1)
                if other is not None:
                    nl.append(z * z + self._zatom(other.id) * self._zatom(other.id) == 1)
                    u2.add(other.id)
            elif k == 'exp':
                out.append(z > 0)
                x = self._z3poly(a.data, u2)
                out.append(z >= 1 + x)
                out.append(z3.Implies(x <= 0, z <= 1))
            elif k == 'log':
                x = self._z3poly(a.data, u2)
                out.append(z3.Implies(x > 0, z <= x - 1))
                out.append(z3.Implies(x >= 1, z >= 0))
                out.append(z3.Implies(z3.And(x > 0, x < 1), z < 0))
            elif k == 'atan':
                x = self._z3poly(a.data, u2)
                pz = self._zatom(self._pi().id)
                u2.add(self._pi().id)
                out.append(z3.And(2 * z < pz, 2 * z > -pz))
                out.append(z3.Implies(x > 0, z > 0))
                out.append(z3.Implies(x < 0, z < 0))
                out.append(z3.Implies(x == 0, z == 0))
            elif k == 'atan2':
                pz = self._zatom(self._pi().id)
                u2.add(self._pi().id)
                out.append(z3.And(z <= pz, z >= -pz))
            elif k == 'floor':
                x = self._z3poly(a.data, u2)
                out.append(z3.And(z <= x, x < z + 1))
            elif k == 'comp':
                out.append(z == self._z3poly(a.data, u2))
            elif k == 'ite':
                c, diff = a.data
                cb = self._z3bool(c)
                u2 |= self._used_all
                out.append(z == z3.If(cb, self._z3poly(diff, u2), 0))
            elif k == 'count':
                n, cv, body = a.data
                out.append(z >= 0)
                out.append(z <= self._z3poly(self.nf(n), u2))
                # instantiate at the known index terms
                for it in self._index_terms:
                    inst = tm.subst(body, {cv: it})
                    rng = tm.and_(tm.le(tm.ZERO, it), tm.lt(it, n))
                    out.append(z3.Implies(z3.And(self._z3bool(rng), self._z3bool(inst)), z >= 1))
                u2 |= self._used_all
            elif k == 'sum':
                old = self.scope
                cvn = a.data[1]
                if not old:
                    cv = tm.var(cvn, True)
                    n = a.data[4]
                    self.scope = (tm.le(tm.ZERO, cv), tm.lt(cv, n))
                    try:
                        s = self.sign(a.data[2])
                    finally:
                        self.scope = old
                    if s in ('+', '0+'):
                        out.append(z >= 0)
                        if s == '+':
                            out.append(z3.Implies(self._z3poly(self.nf(n), u2) >= 1, z > 0))
                    elif s == '-':
                        out.append(z <= 0)
            todo.extend(x for x in u2 if x not in seen)
        # monotone functions
        for kind in ('log', 'exp', 'atan'):
            ats = [u for u in seen if isinstance(u, int) and self.atoms[u].kind == kind]
            if 1 < len(ats) <= 8:
                for i in ats:
                    for j in ats:
                        if i != j:
                            u2 = set()
                            x, y = self._z3poly(self.atoms[i].data, u2), self._z3poly(self.atoms[j].data, u2)
                            zi, zj = self._zatom(i), self._zatom(j)
                            c = z3.And(x > 0, x < y) if kind == 'log' else x < y
                            out.append(z3.Implies(c, zi < zj))

    @property
    def _index_terms(self):
        return getattr(self, 'index_terms', []) + self.skolems

    def _fact_z3(self, vs=None):
        """facts (and instantiated element facts) as z3, recomputed when new element facts appear.
        With vs: only the facts about these variables."""
        out = []
        n = -1
        self._used_all = set()
        cache = self.__dict__.setdefault('_zfc', {})
        i = 0
        insts = self._instances()
        facts = list(self.facts) + list(self.scope) + insts
        while True:
            ex = list(self.extra)
            for f in (facts + ex)[i:]:
                if vs is not None and not f.vs <= vs:
                    continue
                key = (f, self.scope)
                if key in cache:
                    z, used = cache[key]
                else:
                    self._used_all = set()
                    z = self._z3bool(f)
                    used = set(self._used_all)
                    cache[key] = (z, used)
                out.append((z, used))
            i = len(facts) + len(ex)
            if len(self.extra) == len(ex):
                break
        return out

    def _instances(self):
        res = []
        if not self.allfacts:
            return res
        its = list(self._index_terms)
        for v in {v for s in self.scope for v in s.vs if v.startswith('#')}:
            its.append(tm.var(v, True))
        for f in self.allfacts:
            bv, n, body = f.args
            for it in its:
                res.append(tm.implies(tm.and_(tm.le(tm.ZERO, it), tm.lt(it, n)), tm.subst(body, {bv: it})))
        return res

    def _z3_valid(self, goal, timeout=None, vs=None, lin=False):
        if getattr(self, '_nest', 0) > 3:
            return False
        self._nest = getattr(self, '_nest', 0) + 1
        used = set(getattr(self, '_used_all', set()))      # the atoms of the goal: needed again by the next query on it
        try:
            return self._z3_valid1(goal, timeout, vs, lin)
        finally:
            self._nest -= 1
            self._used_all = used

    def _z3_valid1(self, goal, timeout, vs=None, lin=False):
        if self.deadline and time.time() > self.deadline:
            raise TooHard('deadline')
        used = set(getattr(self, '_used_all', set()))
        fz = self._fact_z3(vs)
        zs = []
        for z, u in fz:
            zs.append(z)
            used |= u
        ax, nl = [], []
        self._used_all = set()
        self._axioms(used, ax, set(), nl)
        # element facts may have appeared while building axioms
        for z, u in self._fact_z3(vs)[len(fz):]:
            zs.append(z)
        fm = zs + ax + [z3.Not(goal)]
        monos = self.__dict__.get('_monos', {})
        t0 = time.time()
        r = None
        if nl or monos or lin:
            s = z3.SimpleSolver()
            s.set('timeout', min(int(timeout or 2000), 2000))
            for z in fm:
                s.add(z)
            r = s.check()
            STATS['z3_calls'] += 1
            STATS['z3_linear'] = STATS.get('z3_linear', 0) + (r == z3.unsat)
        if r != z3.unsat and not lin:
            s = z3.Solver()
            s.set('timeout', int(timeout or self.zt))
            sub = [(v, d) for v, d, _ in monos.values()]
            if sub:
                s.add(z3.substitute(z3.And(fm), *sub))
            else:
                s.add(fm)
            s.add(nl)
            r = s.check()
            STATS['z3_calls'] += 1
        STATS['z3_time'] += time.time() - t0
        if r == z3.unknown:
            STATS['z3_unknown'] += 1
        self.last_model = s.model() if r == z3.sat else None
        self.last_result = str(r)
        return r == z3.unsat

    def feasible(self, *conds):
        """False only when facts + conds are contradictory."""
        if self.infeasible:
            return False
        self._used_all = set()
        z = z3.And([self._z3bool(c) for c in conds]) if conds else z3.BoolVal(True)
        r = self._z3_valid(z3.Not(z), 1500)
        return not (r or self.infeasible)

    def quick(self, g):
        from . import quick
        its = list(self._index_terms) + self.skolems
        k = len(self.facts), len(self.allfacts), tuple(its)
        if getattr(self, '_quick', None) is None or self._quick[0] != k:
            self._quick = k, quick.Quick(self.facts + self.allfacts, its)
        return self._quick[1].entails(g)

    # -- proving -------------------------------------------------------------------------------------------
    def prove(self, g, depth=0):
        """True if the facts entail g."""
        if self.infeasible:
            return True
        o = g.op
        if o == 'true':
            return True
        if depth == 0 and o in ('lt', 'le', 'or', 'not') and self.quick(g):
            return True
        if o == 'and':
            return all(self.prove(x, depth) for x in g.args)
        if o == 'all':
            bv, n, body = g.args
            i = tm.fresh('k', True)
            c = self.extend(tm.le(tm.ZERO, i), tm.lt(i, n))
            c.index_terms = self._index_terms + [i]
            return c.prove(tm.subst(body, {bv: i}), depth)
        if o == 'or':
            # assume the negation of all but one disjunct; prefer to prove a quantified/equality one
            parts = sorted(g.args, key=lambda x: ({'all': 0, 'eq': 1, 'and': 2}.get(x.op, 3), -len(tm.subterms(x))))
            last = parts[0]
            if sum(x.op == 'all' for x in parts) > 1 and any(self.prove(x, depth) for x in parts if x.op == 'all'):
                return True
            c = self.extend(*[tm.not_(x) for x in parts[1:]])
            c.index_terms = list(self._index_terms)
            if not c.feasible():
                return True
            return c.prove(last, depth)
        if o == 'eq':
            return self._prove_eq(g.args[0], g.args[1], depth)
        self._used_all = set()
        z = self._z3bool(g)
        if self._z3_valid(z):
            return True
        if o in ('lt', 'le'):
            c = self._split_cond(self.padd(self.nf(g.args[0]), self.nf(g.args[1]), -F1))
            if c is not None and depth < 14:
                return self._split(c, g, depth)
        return False

    def _split_cond(self, p, seen=None):
        """a condition inside p (free of canonical bound variables) that is worth splitting on."""
        seen = set() if seen is None else seen
        for m in p:
            for i, _ in m:
                a = self.atoms[i]
                if a.id in seen:
                    continue
                seen.add(a.id)
                c = None
                if a.kind == 'ite':
                    cond = a.data[0]
                    c = self._split_cond(a.data[1], seen)
                    if c is None and not any(v.startswith('#') for v in cond.vs):
                        for x in self._atomic_conds(cond):
                            if self.decide(x) is None:
                                c = x
                                break
                        else:
                            c = None
                    if c is not None:
                        return c
                elif a.kind in ('comp', 'sin', 'cos', 'exp', 'log', 'atan', 'floor'):
                    c = self._split_cond(a.data, seen)
                elif a.kind in ('atan2', 'fn'):
                    ds = a.data if isinstance(a.data, tuple) else (a.data,)
                    for d in ds:
                        if isinstance(d, dict):
                            c = c or self._split_cond(d, seen)
                elif a.kind == 'sum':
                    c = self._split_cond(a.data[2], seen)
                if c is not None:
                    return c
        return None

    def _atomic_conds(self, c):
        if c.op in ('and', 'or', 'not'):
            r = []
            for x in c.args:
                r += self._atomic_conds(x)
            return r
        return [c]

    def _split(self, c, g, depth):
        for cc in (c, tm.not_(c)):
            k = self.extend(cc)
            k.index_terms = list(self._index_terms)
            if not k.feasible():
                continue
            if not k.prove(g, depth + 1):
                return False
        return True

    def _prove_eq(self, a, b, depth):
        try:
            p = self.pdiff(self.nf(a), self.nf(b))
        except ZeroDivisionError:
            return not self.feasible()
        if self.iszero(p):
            return True
        c = self._split_cond(p)
        if c is not None and depth < 14:
            return self._split(c, tm.eq(a, b), depth)
        q = self._congruent(p)
        if q is not None:
            if self.iszero(q):
                return True
            p = q
        self._used_all = set()
        z = self._z3poly(p)
        return self._z3_valid(z == 0)

    def _congruent(self, p):
        """identify applications of the same function to arguments that the facts make equal"""
        ids = sorted({i for m in p for i, e in m if self.atoms[i].kind == 'fn'})
        fams = {}
        for key, fam in self.byfn.items():
            if key[0] == 'sum':
                continue
            mine = [(b, args) for b, args, _ in fam if b.id in ids]
            if len(mine) > 1:
                fams[id(fam)] = mine
        done, tries, out = {}, 0, None
        for mine in fams.values():
            for k, (b, args) in enumerate(mine):
                for a, args0 in mine[:k]:
                    if a.id in done or tries >= 6:
                        continue
                    tries += 1
                    if all(not isinstance(x, dict) or self.iszero(self.padd(x, y, -F1)) or
                           self._eq_z3(self.padd(x, y, -F1)) for x, y in zip(args, args0)):
                        done[b.id] = a.id
                        break
        if not done:
            return None
        out = {}
        for m, c in p.items():
            e2 = {}
            for i, e in m:
                i = done.get(i, i)
                e2[i] = e2.get(i, F0) + e
            out = self.padd(out, {tuple(sorted((i, e) for i, e in e2.items() if e)): c})
        return out

    def _eq_z3(self, d):
        q = self._congruent(d)
        if q is not None:
            if self.iszero(q):
                return True
            d = q
        self._used_all = set()
        return self._z3_valid(self._z3poly(d) == 0)
