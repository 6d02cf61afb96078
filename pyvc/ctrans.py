"""Mechanical translation of /repo's C and Cython sources to Python, redone on every run.

C: clang parses the file (-ast-dump=json); each function over scalars is written out as a Python function, statement by
statement.  Doubles become reals, conversions of a double to an integer truncate, exit() ends the path without a
result, printf() is dropped.  Anything outside this subset (pointers, structs, goto, switch) is an error, and the
contract is then evaluated on the compiled code only.

Cython: the type declarations (cdef, cimport, typed parameters, decorators of the compiler) are dropped; what is left
is Python.
"""
import ast
import json
import os
import re
import subprocess

MATH = {'sin', 'cos', 'tan', 'sqrt', 'floor', 'fabs', 'atan', 'atan2', 'exp', 'log', 'pow', 'ceil', 'fmod', 'abs', 'fmax', 'fmin'}


class CError(Exception):
    pass


class Exit(Exception):
    """the process was ended by exit()"""


def c_ast(path):
    r = subprocess.run(['clang', '-Xclang', '-ast-dump=json', '-fsyntax-only', path], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if r.returncode:
        raise CError(r.stderr.decode()[:500])
    return json.loads(r.stdout)


def isint(q):
    q = q.replace('const', '').strip()
    return q in ('int', 'long', 'short', 'char', 'unsigned int', 'size_t', 'unsigned long', 'long long', '_Bool', 'unsigned char')


def isreal(q):
    return q.replace('const', '').strip() in ('double', 'float', 'long double')


class Fn(object):
    def __init__(self, node):
        self.node = node
        self.out = []
        self.ind = 1
        self.loops = []

    def emit(self, s):
        self.out.append('    ' * self.ind + s)

    def ty(self, n):
        return n['type'].get('desugaredQualType', n['type']['qualType'])

    def expr(self, n):
        k = n['kind']
        ch = n.get('inner', [])
        if k == 'ParenExpr':
            return '(%s)' % self.expr(ch[0])
        if k == 'ConstantExpr':
            return self.expr(ch[0])
        if k in ('ImplicitCastExpr', 'CStyleCastExpr'):
            c = n['castKind']
            e = self.expr(ch[0])
            if c in ('LValueToRValue', 'NoOp', 'IntegralToFloating', 'FloatingCast', 'IntegralCast', 'FunctionToPointerDecay',
                     'BuiltinFnToFnPtr'):
                if c == 'FloatingCast' and self.ty(n) == 'float' or c == 'IntegralCast' and not isint(self.ty(n)):
                    raise CError('cast to ' + self.ty(n))
                return e
            if c == 'FloatingToIntegral':
                return '__c_trunc__(%s)' % e
            if c in ('IntegralToBoolean', 'FloatingToBoolean'):
                return '(%s != 0)' % e
            raise CError('cast ' + c)
        if k == 'DeclRefExpr':
            return 'c_' + n['referencedDecl']['name']
        if k == 'IntegerLiteral':
            return str(int(n['value']))
        if k == 'FloatingLiteral':
            # the JSON dump writes at most 6 digits: the source text is read instead
            return self.literal(n)
        if k == 'CharacterLiteral':
            return str(n['value'])
        if k == 'UnaryOperator':
            o = n['opcode']
            if o in ('-', '+'):
                return '(%s%s)' % (o, self.expr(ch[0]))
            if o == '!':
                return '(not %s)' % self.cond(ch[0])
            raise CError('operator %s inside an expression' % o)
        if k == 'BinaryOperator':
            o = n['opcode']
            if o in ('=', ','):
                raise CError('assignment inside an expression')
            if o in ('&&', '||'):
                return '(%s %s %s)' % (self.cond(ch[0]), {'&&': 'and', '||': 'or'}[o], self.cond(ch[1]))
            a, b = self.expr(ch[0]), self.expr(ch[1])
            if o in ('==', '!=', '<', '>', '<=', '>=', '+', '-', '*'):
                if o in '+-*' and isint(self.ty(n)):
                    a, b = self.num(ch[0]), self.num(ch[1])
                return '(%s %s %s)' % (a, o, b)
            if o == '/':
                if isreal(self.ty(n)):
                    return '(%s / %s)' % (a, b)
                return '__c_idiv__(%s, %s)' % (self.num(ch[0]), self.num(ch[1]))
            if o == '%':
                return '__c_imod__(%s, %s)' % (self.num(ch[0]), self.num(ch[1]))
            raise CError('operator ' + o)
        if k == 'ConditionalOperator':
            return '(%s if %s else %s)' % (self.expr(ch[1]), self.cond(ch[0]), self.expr(ch[2]))
        if k == 'CallExpr':
            f = self.expr(ch[0])
            a = [self.expr(x) for x in ch[1:]]
            return '%s(%s)' % (f, ', '.join(a))
        raise CError('expression ' + k)

    def num(self, n):
        """an integer operand (a comparison counts as 0 or 1)"""
        m = n
        while m['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
            m = m['inner'][0]
        e = self.expr(n)
        if m['kind'] == 'BinaryOperator' and m['opcode'] in ('==', '!=', '<', '>', '<=', '>=', '&&', '||') or \
                m['kind'] == 'UnaryOperator' and m['opcode'] == '!':
            return '(1 if %s else 0)' % e
        return e

    def literal(self, n):
        b = n['range']['begin']
        b = b.get('expansionLoc', b)
        s = self.src[b['offset']:b['offset'] + b['tokLen']]
        if re.fullmatch(r'[0-9.]+([eE][+-]?[0-9]+)?[lLdD]?', s):
            return s.rstrip('lLdD')
        return repr(float(n['value']))

    def cond(self, n):
        return self.expr(n)

    def block(self, n):
        self.ind += 1
        k = len(self.out)
        if n['kind'] == 'CompoundStmt':
            for s in n.get('inner', []):
                self.stmt(s)
        else:
            self.stmt(n)
        if len(self.out) == k:
            self.emit('pass')
        self.ind -= 1

    def target(self, n):
        while n['kind'] == 'ParenExpr':
            n = n['inner'][0]
        if n['kind'] != 'DeclRefExpr':
            raise CError('assignment to ' + n['kind'])
        return 'c_' + n['referencedDecl']['name']

    def assign(self, t, op, n, ty):
        e = self.expr(n)
        if isint(ty):
            e = self.num(n)
        if op:
            if op == '/' and isint(ty):
                raise CError('integer division in place')
            if isint(ty) and isreal(self.ty(n)):
                raise CError('mixed in-place operator')
            e = '%s %s (%s)' % (t, op, e)
        self.emit('%s = %s' % (t, e))

    def stmt(self, n):
        k = n['kind']
        ch = n.get('inner', [])
        while k in ('ParenExpr', 'ImplicitCastExpr', 'CStyleCastExpr') and ch:
            n = ch[0]
            k = n['kind']
            ch = n.get('inner', [])
        if k == 'DeclStmt':
            for d in ch:
                if d['kind'] != 'VarDecl' or not (isint(self.ty(d)) or isreal(self.ty(d))) or d.get('storageClass') == 'static':
                    raise CError('declaration of %s' % d.get('name'))
                if d.get('inner'):
                    self.assign('c_' + d['name'], None, d['inner'][0], self.ty(d))
        elif k == 'NullStmt':
            self.emit('pass')
        elif k == 'CompoundStmt':
            for s in ch:
                self.stmt(s)
        elif k == 'BinaryOperator' and n['opcode'] == '=':
            r = ch[1]
            # a = b = c
            q = r
            while q['kind'] in ('ParenExpr', 'ImplicitCastExpr'):
                q = q['inner'][0]
            if q['kind'] == 'BinaryOperator' and q['opcode'] == '=':
                self.stmt(q)
                r = q['inner'][0]
            self.assign(self.target(ch[0]), None, r, self.ty(ch[0]))
        elif k == 'BinaryOperator' and n['opcode'] == ',':
            for s in ch:
                self.stmt(s)
        elif k == 'CompoundAssignOperator':
            self.assign(self.target(ch[0]), n['opcode'][:-1], ch[1], self.ty(ch[0]))
        elif k == 'UnaryOperator' and n['opcode'] in ('++', '--'):
            t = self.target(ch[0])
            self.emit('%s = %s %s 1' % (t, t, n['opcode'][0]))
        elif k == 'IfStmt':
            self.emit('if %s:' % self.cond(ch[0]))
            self.block(ch[1])
            if len(ch) > 2:
                self.emit('else:')
                self.block(ch[2])
        elif k == 'WhileStmt':
            self.emit('while %s:' % self.cond(ch[0]))
            self.loops.append(None)
            self.block(ch[-1])
            self.loops.pop()
        elif k == 'DoStmt':
            # the body once, then a while loop
            if self.has(ch[0], ('BreakStmt', 'ContinueStmt')):
                raise CError('break or continue in do-while')
            self.ind -= 1
            self.block(ch[0])
            self.ind += 1
            self.emit('while %s:' % self.cond(ch[1]))
            self.block(ch[0])
        elif k == 'ForStmt':
            init, _, cond, inc, body = ch
            if init.get('kind'):
                self.stmt(init)
            self.emit('while %s:' % (self.cond(cond) if cond.get('kind') else 'True'))
            self.loops.append(inc)
            self.block(body)
            self.loops.pop()
            if inc.get('kind'):
                self.ind += 1
                self.stmt(inc)
                self.ind -= 1
        elif k == 'ReturnStmt':
            if ch:
                e = self.num(ch[0]) if isint(self.ret) else self.expr(ch[0])
                self.emit('return %s' % e)
            else:
                self.emit('return')
        elif k == 'BreakStmt':
            self.emit('break')
        elif k == 'ContinueStmt':
            if self.loops and self.loops[-1] and self.loops[-1].get('kind'):
                self.stmt(self.loops[-1])
            self.emit('continue')
        elif k == 'CallExpr':
            f = self.expr(ch[0])
            if f in ('c_printf', 'c_fprintf', 'c_fflush', 'c_puts'):
                self.emit('pass')
            elif f in ('c_exit', 'c_abort'):
                self.emit('raise __c_exit__()')
            else:
                self.emit(self.expr(n))
        else:
            raise CError('statement ' + k)

    def has(self, n, kinds):
        if n.get('kind') in kinds:
            return True
        return any(self.has(c, kinds) for c in n.get('inner', []) if isinstance(c, dict))

    def python(self, src):
        self.src = src
        n = self.node
        ps = [c for c in n.get('inner', []) if c['kind'] == 'ParmVarDecl']
        for p in ps:
            if not (isint(self.ty(p)) or isreal(self.ty(p))):
                raise CError('parameter of type ' + self.ty(p))
        self.ret = n['type']['qualType'].split('(')[0].strip()
        body = [c for c in n['inner'] if c['kind'] == 'CompoundStmt'][0]
        self.out.append('def c_%s(%s):' % (n['name'], ', '.join('c_' + p['name'] for p in ps)))
        # integer parameters convert their argument
        for p in ps:
            if isint(self.ty(p)):
                pass
        self.ind = 0
        self.block(body)
        return '\n'.join(self.out)


def translate_c(path):
    """{function name: Python text} of the functions defined in the file; {name: reason} of those that cannot be"""
    src = open(path).read()
    tree = c_ast(path)
    ok, bad = {}, {}
    glob = []
    main = True
    for d in tree['inner']:
        if d['kind'] != 'FunctionDecl' and d['kind'] != 'VarDecl':
            continue
        off = d.get('loc', {})
        if 'includedFrom' in off or 'includedFrom' in off.get('spellingLoc', {}) or 'includedFrom' in d.get('range', {}).get('begin', {}):
            continue
        if d['kind'] == 'VarDecl':
            if d.get('inner') and d.get('storageClass') != 'extern':
                f = Fn(d)
                f.src = src
                f.ind = 0
                try:
                    f.assign('c_' + d['name'], None, d['inner'][0], f.ty(d))
                    glob += f.out
                except (CError, KeyError):
                    pass
            continue
        if not any(c['kind'] == 'CompoundStmt' for c in d.get('inner', [])):
            continue
        try:
            ok[d['name']] = Fn(d).python(src)
        except CError as e:
            bad[d['name']] = str(e)
    return ok, bad, '\n'.join(glob)


# -- Cython ------------------------------------------------------------------------------------------------------
def translate_pyx(path):
    """the Cython file without its type declarations"""
    text = open(path).read()
    # join continued lines inside brackets and after backslashes
    text = text.replace('\\\n', ' ')
    lines = text.split('\n')
    out = []
    skip = None
    i = 0
    while i < len(lines):
        ln = lines[i]
        depth = brackets(ln)
        while depth > 0 and i + 1 < len(lines):
            i += 1
            ln += ' ' + lines[i].strip()
            depth = brackets(ln)
        i += 1
        st = ln.strip()
        ind = len(ln) - len(ln.lstrip())
        if skip is not None:
            if st == '' or ind > skip:
                continue
            skip = None
        if re.match(r'cdef\s+extern\b', st):
            skip = ind
            continue
        if re.match(r'(from\s+\S+\s+)?cimport\b', st) or st.startswith('ctypedef') or st.startswith('@cython.') or \
                st in ('import cython', 'import_array()', 'np.import_array()'):
            continue
        m = re.match(r'(cp?def)\s+(?:inline\s+)?(.*)$', st)
        if m and st.endswith(':') and '(' in st:
            # typed function
            name = re.search(r'(\w+)\s*\(', st[len(m.group(1)):]).group(1)
            st = 'def %s(%s' % (name, st.split('(', 1)[1])
            m = None
        if m:
            body = m.group(2)
            if body.endswith(':'):
                raise CError('cdef block')
            # type name[, name] [= value]
            body = drop_type(body)
            if '=' not in body:
                continue
            out.append(' ' * ind + body)
            continue
        if st.startswith('def '):
            h, rest = st.split('(', 1)
            k = rest.rindex(')')
            ps = [param(p) for p in split_top(rest[:k])]
            out.append(' ' * ind + h + '(' + ', '.join(ps) + ')' + ':')
            continue
        out.append(ln if not st.startswith('def ') else ' ' * ind + st)
    src = '\n'.join(out)
    ast.parse(src)
    return src


def brackets(s):
    s = s.split('#')[0]
    return sum(s.count(c) for c in '([{') - sum(s.count(c) for c in ')]}')


def split_top(s):
    out, d, cur = [], 0, ''
    for c in s:
        if c in '([{':
            d += 1
        elif c in ')]}':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur)
    return [x.strip() for x in out]


def param(p):
    d = ''
    if '=' in re.sub(r'\[[^\]]*\]', '', p):
        p, d = p.rsplit('=', 1)
        d = '=' + d
    return re.findall(r'\w+', re.sub(r'\[[^\]]*\]', ' ', p))[-1] + d


def drop_type(s):
    """'np.ndarray[double, ndim=1] E = f(x)' -> 'E = f(x)'; 'int a, b' -> 'a, b'"""
    t = re.match(r'(?:unsigned\s+|long\s+|const\s+)*[\w.]+\s*(\[[^\]]*\])?\s*', s)
    return s[t.end():]


# -- loading the translation for symbolic execution -----------------------------------------------------------------
def load_symbolic(repo):
    """namespaces of src/kepler.c and src/_kepler.pyx: ({'c_kepler': f, ...}, {'rv_drive_array': f, ...}, {name: reason})"""
    from . import loader, npshim, sym, terms as tm
    np = npshim.SymNP()

    def trunc(x):
        return loader.v_int(x)

    def idiv(a, b):
        if isinstance(a, sym.SReal) or isinstance(b, sym.SReal):
            raise sym.Unsupported('integer division')
        return int(a / b)

    def imod(a, b):
        if isinstance(a, sym.SReal) or isinstance(b, sym.SReal):
            raise sym.Unsupported('integer division')
        return a - b * int(a / b)

    def end():
        return sym.PathEnd()
    # conversions inside the helpers keep truncation exact for small constants
    lib = {'c_' + f: getattr(np, f) for f in ('sin', 'cos', 'tan', 'sqrt', 'floor', 'exp', 'log', 'ceil')}
    lib.update({'c_fabs': abs, 'c_abs': abs, 'c_atan': np.arctan, 'c_atan2': np.arctan2, 'c_pow': lambda a, b: a ** b,
                'c_fmax': npshim.p_max, 'c_fmin': npshim.p_min,
                '__c_trunc__': trunc, '__c_idiv__': idiv, '__c_imod__': imod, '__c_exit__': end})
    path = os.path.join(repo, 'src', 'kepler.c')
    ok, bad, glob = translate_c(path)
    cn = dict(lib)
    cn.update(loader.hooks())
    # the name makes the statements count as statements of the code under test
    where = os.path.join(repo, 'radvel', '..', 'src', 'kepler.c')
    exec(loader.instrument(glob, where), cn)
    for name in ok:
        exec(loader.instrument(ok[name], where), cn)
    pn = {'np': np, 'sin': np.sin, 'cos': np.cos, 'sqrt': np.sqrt, 'tan': np.tan, 'floor': np.floor, 'fabs': abs}
    for name in ok:
        pn[name] = (lambda *a, f='c_' + name: cn[f](*a))
    pn.update(loader.hooks())
    text = translate_pyx(os.path.join(repo, 'src', '_kepler.pyx'))
    text = re.sub(r'^import numpy as np$|^from __future__.*$', 'pass', text, flags=re.M)
    exec(loader.instrument(text, os.path.join(repo, 'radvel', '..', 'src', '_kepler.pyx')), pn)
    return cn, pn, bad


def build(repo):
    """compile the current sources: (extension module _kepler, ctypes library of kepler.c)"""
    import ctypes
    import importlib.util
    import shutil
    import sys
    import sysconfig
    import tempfile
    import numpy
    d = tempfile.mkdtemp(prefix='kepler')
    try:
        for f in ('kepler.c', '_kepler.pyx'):
            shutil.copy(os.path.join(repo, 'src', f), d)
        so = os.path.join(d, '_kepler' + sysconfig.get_config_var('EXT_SUFFIX'))
        cmds = [[sys.executable, '-m', 'cython', '_kepler.pyx', '-o', '_kepler.c'],
                ['gcc', '-shared', '-fPIC', '-O2', '-fwrapv', '-w', '-I.', '-I' + sysconfig.get_path('include'),
                 '-I' + numpy.get_include(), '_kepler.c', '-o', so, '-lm'],
                ['gcc', '-shared', '-fPIC', '-O2', '-w', 'kepler.c', '-o', 'libkepler.so', '-lm']]
        for c in cmds:
            r = subprocess.run(c, cwd=d, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise CError('build of the current sources failed: ' + r.stdout.decode()[-1500:])
        spec = importlib.util.spec_from_file_location('radvel._kepler', so)
        mod = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(mod)
        lib = ctypes.CDLL(os.path.join(d, 'libkepler.so'))
        for n, k in (('kepler', 2), ('rv_drive', 7)):
            f = getattr(lib, n, None)
            if f is not None:
                f.restype = ctypes.c_double
                f.argtypes = [ctypes.c_double] * k
        return mod, lib
    finally:
        shutil.rmtree(d)
