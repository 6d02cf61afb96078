"""Automatic mutation of the functions under contract: which changes do the contracts of a property not notice?
   mutate.py OUT.jsonl N_PER_FUNCTION WORKERS SEED [C01,C02,..] - one line per mutant, 'survived' ones deserve a look"""
import ast, json, os, random, shutil, subprocess, sys, tempfile, threading, queue
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = '/opt/venv/bin/python'
OPS = {ast.Add: '-', ast.Sub: '+', ast.Mult: '/', ast.Div: '*', ast.Pow: '*'}
CMP = {ast.Lt: ['<=', '>='], ast.LtE: ['<', '>'], ast.Gt: ['>=', '<='], ast.GtE: ['>', '<'], ast.Eq: ['!='], ast.NotEq: ['=='],
       ast.In: ['not in'], ast.NotIn: ['in'], ast.Is: ['is not'], ast.IsNot: ['is']}


def functions(tree, mod):
    def walk(n, pre):
        for c in getattr(n, 'body', []):
            if isinstance(c, ast.FunctionDef):
                yield pre + '.' + c.name, c
            elif isinstance(c, ast.ClassDef):
                yield from walk(c, pre + '.' + c.name)
    return dict(walk(tree, mod))


def offsets(src):
    o = [0]
    for l in src.split('\n'):
        o.append(o[-1] + len(l.encode()) + 1)
    return o


def mutants(src, fn):
    off = offsets(src)
    b = src.encode()
    at = lambda l, c: off[l - 1] + c
    span = lambda n: (at(n.lineno, n.col_offset), at(n.end_lineno, n.end_col_offset))
    text = lambda n: b[slice(*span(n))].decode()
    out = []

    def rep(n, new, what):
        s, e = span(n)
        out.append((n.lineno, what, (b[:s] + new.encode() + b[e:]).decode()))
    doc = ast.get_docstring(fn)
    for st in ast.walk(fn):
        if isinstance(st, ast.FunctionDef) and st is not fn:
            pass
        if isinstance(st, ast.Raise):
            continue
        if isinstance(st, ast.BinOp) and type(st.op) in OPS:
            if isinstance(st.left, ast.Constant) and isinstance(st.left.value, str):
                continue
            new = OPS[type(st.op)]
            rep(st, '(%s) %s (%s)' % (text(st.left), new, text(st.right)), 'op ' + new)
        elif isinstance(st, ast.Compare) and len(st.ops) == 1:
            for new in CMP[type(st.ops[0])]:
                rep(st, '(%s) %s (%s)' % (text(st.left), new, text(st.comparators[0])), 'cmp ' + new)
        elif isinstance(st, ast.BoolOp):
            new = ' or ' if isinstance(st.op, ast.And) else ' and '
            rep(st, '(' + new.join('(%s)' % text(v) for v in st.values) + ')', 'bool' + new)
            rep(st, '(' + text(st.values[0]) + ')', 'bool first')
            rep(st, '(' + text(st.values[-1]) + ')', 'bool last')
        elif isinstance(st, ast.UnaryOp):
            rep(st, '(' + text(st.operand) + ')', 'drop unary')
        elif isinstance(st, ast.Constant) and isinstance(st.value, bool):
            rep(st, str(not st.value), 'bool const')
        elif isinstance(st, ast.Constant) and isinstance(st.value, (int, float)):
            rep(st, repr(st.value + 1), 'const+1')
            if st.value:
                rep(st, '0', 'const 0') if st.value not in (0,) else None
        elif isinstance(st, (ast.Assign, ast.AugAssign, ast.Delete)) or isinstance(st, ast.Expr) and isinstance(st.value, ast.Call):
            if not (isinstance(st, ast.Expr) and text(st).startswith(('print', 'warnings'))):
                rep(st, 'pass', 'drop: ' + text(st)[:60])
            if isinstance(st, ast.AugAssign):
                rep(st, text(st.target) + ' = ' + text(st.value), 'augassign to assign')
        elif isinstance(st, ast.If):
            rep(st.test, '(not (%s))' % text(st.test), 'negate if')
        elif isinstance(st, (ast.Break, ast.Continue)):
            rep(st, 'pass', 'drop ' + text(st))
        elif isinstance(st, ast.Call):
            for k in st.keywords:
                if k.arg:
                    s, e = span(k.value)
            if st.keywords and st.keywords[-1].arg and (st.args or len(st.keywords) > 1):
                prev = st.keywords[-2].value if len(st.keywords) > 1 else st.args[-1]
                s, e = span(prev)[1], span(st.keywords[-1].value)[1]
                out.append((st.lineno, 'drop keyword ' + st.keywords[-1].arg, (b[:s] + b[e:]).decode()))
            if len(st.args) == 2 and not any(isinstance(a, ast.Starred) for a in st.args):
                (s1, e1), (s2, e2) = span(st.args[0]), span(st.args[1])
                out.append((st.lineno, 'swap args', (b[:s1] + b[s2:e2] + b[e1:s2] + b[s1:e1] + b[e2:]).decode()))
        elif isinstance(st, ast.IfExp):
            rep(st, '(' + text(st.body) + ')', 'ifexp body')
            rep(st, '(' + text(st.orelse) + ')', 'ifexp else')
    good = []
    for l, w, t in out:
        try:
            ast.parse(t)
        except SyntaxError:
            continue
        good.append((l, w, t))
    return good


def registry():
    sys.path.insert(0, HERE)
    r = subprocess.run([PY, '-c', '''
import sys, json, contextlib, io
sys.path.insert(0, %r); sys.path.insert(0, '/repo')
sys.argv = ['x', 'conc']
import pyvc.worker as w
with contextlib.redirect_stdout(io.StringIO()):
    import radvel, radvel.driver
    out = []
    for i in (*range(1, 21), 22):
        for h in w.load('C%%02d' %% i):
            out.append((h.prop, h.name, h.funcs))
print(json.dumps(out))
''' % HERE], capture_output=True, text=True, env=dict(os.environ, OMP_NUM_THREADS='1', MPLBACKEND='Agg'))
    return json.loads(r.stdout.strip().split('\n')[-1])


def run(kind, prop, names, repo, out, extra=False):
    env = dict(os.environ, VP_REPO=repo, PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', RADVEL_DATADIR='/repo/example_data', OMP_NUM_THREADS='1',
               OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', HDF5_USE_FILE_LOCKING='FALSE', VP_WORKERS='2')
    env.pop('PYTHONPATH', None)
    if os.path.exists(out):
        os.remove(out)
    try:
        p = subprocess.run([PY, HERE + '/pyvc/worker.py', kind, prop, out, ','.join(names)] + (['--extra'] if extra else []),
                           capture_output=True, text=True, env=env, timeout=300, cwd=os.path.dirname(out))
    except subprocess.TimeoutExpired:
        return {'*': {'crash': 'timeout'}}
    if not os.path.exists(out):
        return {'*': {'crash': p.stdout[-300:] + p.stderr[-300:]}}
    return json.load(open(out))


def judge(job, repo, tmp, table):
    fn, prop_names = job['func'], table[job['func']]
    notes = []
    for prop, names in prop_names.items():
        conc = run('conc', prop, names, repo, tmp + '/c.json')
        for n, r in conc.items():
            if r.get('fail'):
                return 'caught', prop + ' ' + n
            if r.get('error') or r.get('crash'):
                notes.append('%s %s %s' % (prop, n, (r.get('error') or r.get('crash'))[:200]))
        s = run('sym', prop, names, repo, tmp + '/s.json')
        for n, r in s.items():
            if r.get('crash'):
                notes.append('%s %s sym %s' % (prop, n, r['crash'][:120]))
                continue
            if any(o['status'] == 'failed' for o in r['attempts'][-1]['obligations']):
                return 'proof', prop + ' ' + n
    return ('error' if notes else 'survived'), '; '.join(notes)[:600]


def main():
    outf, per, workers, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3]), int(sys.argv[4])
    props = sys.argv[5].split(',') if len(sys.argv) > 5 else None
    table = {}
    for p, n, fs in registry():
        for f in fs:
            if f.startswith('radvel.') and (not props or p in props):
                table.setdefault(f, {}).setdefault(p, []).append(n)
    rng = random.Random(seed)
    jobs = []
    mods = {}
    for f in sorted(table):
        mod = f.split('.')[1]
        path = 'radvel/%s.py' % mod
        if path not in mods:
            src = open('/repo/' + path).read()
            mods[path] = src, functions(ast.parse(src), 'radvel.' + mod)
        src, fs = mods[path]
        if f not in fs:
            continue
        ms = mutants(src, fs[f])
        rng.shuffle(ms)
        for l, w, t in ms[:per]:
            jobs.append({'func': f, 'file': path, 'line': l, 'what': w, 'text': t})
    rng.shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    q = queue.Queue()
    for j in jobs:
        q.put(j)
    lock = threading.Lock()
    out = open(outf, 'a')

    def work(i):
        tmp = tempfile.mkdtemp(prefix='mut')
        repo = tmp + '/repo'
        subprocess.run(['cp', '-a', '/repo', repo])
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                break
            open(os.path.join(repo, j['file']), 'w').write(j['text'])
            try:
                st, why = judge(j, repo, tmp, table)
            except Exception as e:
                st, why = 'error', repr(e)[:300]
            shutil.copy('/repo/' + j['file'], os.path.join(repo, j['file']))
            orig = open('/repo/' + j['file']).read().split('\n')[j['line'] - 1].strip()
            with lock:
                out.write(json.dumps({'status': st, 'func': j['func'], 'line': j['line'], 'what': j['what'], 'orig': orig, 'why': why}) + '\n')
                out.flush()
        shutil.rmtree(tmp)
    ts = [threading.Thread(target=work, args=(i,)) for i in range(workers)]
    [t.start() for t in ts]
    [t.join() for t in ts]


main()
