"""Runs the contracts of one property: worker.py sym|conc <id> <out.json> [only-harness]"""
import contextlib
import importlib.util
import io
import json
import multiprocessing as mp
import os
import random
import resource
import signal
import sys
import time
import traceback
import warnings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
sys.path.insert(0, HERE)
sys.path.insert(0, REPO)
if '/opt/veriftools/pyvenv/lib/python3.12/site-packages' not in sys.path:
    sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
sys.setrecursionlimit(20000)
warnings.simplefilter('ignore')
SEED = int(os.environ.get('VERIF_SEED', '1'))
TIER = os.environ.get('VERIF_TIER', 'quick')


def load(prop):
    from pyvc import api
    path = os.path.join(HERE, 'contracts', prop.lower() + '.py')
    spec = importlib.util.spec_from_file_location('contracts_' + prop, path)
    m = importlib.util.module_from_spec(spec)
    sys.modules['contracts_' + prop] = m
    sys.path.insert(0, os.path.join(HERE, 'contracts'))
    spec.loader.exec_module(m)
    return [h for h in api.REGISTRY if h.prop == prop]


def sym_one(h):
    from pyvc import engine, nf, sym
    res = {'harness': h.name, 'funcs': h.funcs, 'note': h.note, 'attempts': []}
    mult = 4 if TIER == 'thorough' else 1
    for mode in h.modes:
        t0 = time.time()
        for k in nf.STATS:
            nf.STATS[k] = 0
        sizes = h.sizes if TIER == 'quick' else tuple(sorted(set(h.sizes) | {4}))
        e = engine.Engine(bounded=(mode == 'bounded'), budget=h.budget * mult, sizes=sizes,
                          z3_timeout=h.z3_timeout * mult, max_paths=h.max_paths * mult)
        att = {'mode': mode}
        try:
            with contextlib.redirect_stdout(io.StringIO()):
                e.explore(h.f, engine.SymVC)
            att['status'] = 'ok'
        except sym.Unsupported as x:
            att['status'] = 'unsupported'
            att['why'] = str(x)[:1500]
        except engine.nf.TooHard as x:
            att['status'] = 'unsupported'
            att['why'] = 'normal form: %s' % x
        except MemoryError:
            att['status'] = 'unsupported'
            att['why'] = 'memory'
        att['obligations'] = [o.as_dict() for o in e.obls]
        att['paths'] = e.paths
        att['assumed'] = e.assumed
        att['loops'] = sorted(e.loops_used)
        att['stats'] = dict(nf.STATS)
        att['wall'] = time.time() - t0
        res['attempts'].append(att)
        if att['status'] == 'ok' and not any(o['status'] == 'failed' for o in att['obligations']):
            break
        if any(o['status'] == 'failed' for o in att['obligations']):
            if mode == 'unbounded' and 'bounded' in h.modes and e.havoc_sites and not e.loop_specs:
                # the loop was summarised by inferred invariants, which may be too weak: decide it with bounded sizes
                continue
            break
    for att in res['attempts'][:-1]:
        if att['status'] == 'ok' and res['attempts'][-1]['status'] != 'ok' and \
                not any(o['status'] == 'failed' for o in res['attempts'][-1]['obligations']):
            res['attempts'].append(att)
            break
    if len(res['attempts']) == 0:
        res['attempts'].append({'mode': 'none', 'status': 'unsupported', 'why': 'evaluated on the real code only: ' + h.note,
                                'obligations': [], 'paths': 0, 'assumed': {}, 'loops': [], 'stats': {}, 'wall': 0})
    return res


def conc_one(args):
    h, extra = args
    import radvel
    from pyvc import conc
    res = {'harness': h.name, 'runs': 0, 'skipped': 0, 'fail': None, 'error': None, 'proved': {}, 'covers': [],
           'samples': [], 'distinct': 0}
    t0 = time.time()
    runs = h.runs * (10 if TIER == 'thorough' else 1) * (6 if extra else 1)
    budget = h.conc_budget * (6 if TIER == 'thorough' else 1) * (3 if extra else 1)
    seen = set()
    covers = set()
    for k in range(runs):
        if time.time() - t0 > budget:
            break
        seed = '%d:%s:%d' % (SEED, h.name, k + (100000 if extra else 0))
        out = io.StringIO()
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(io.StringIO()):
            st, vc, detail = conc.run_one(h, seed, radvel, REPO)
        res['runs'] += 1
        for n, c in vc.proved.items():
            res['proved'][n] = res['proved'].get(n, 0) + c
        covers |= vc.covers
        key = repr(sorted((a, repr(b)) for a, b in vc.inputs.items()))
        if st == 'skip':
            res['skipped'] += 1
        elif key not in seen:
            seen.add(key)
            if len(res['samples']) < 2:
                res['samples'].append({a: conc.short(b) for a, b in vc.inputs.items()})
        if st == 'fail':
            res['fail'] = {'harness': h.name, 'seed': seed, 'obligation': detail['obligation'],
                           'detail': detail['detail'], 'inputs': {a: conc.short(b) for a, b in vc.inputs.items()}}
            break
        if st == 'error':
            res['error'] = '%s (seed %s)' % (detail, seed)
            break
    res['distinct'] = len(seen)
    res['covers'] = sorted(covers)
    res['wall'] = time.time() - t0
    return res


def _child(f, arg, conn):
    os.environ['OMP_NUM_THREADS'] = '1'
    try:
        r = f(arg)
    except BaseException as e:
        r = {'crash': '%s: %s\n%s' % (type(e).__name__, e, traceback.format_exc(limit=-8))}
    conn.send(json.dumps(r, default=str))
    conn.close()
    os._exit(0)


def parallel(f, jobs, names, limit, workers):
    """run f(job) in forked processes with a time limit each"""
    out = {}
    pending = list(zip(names, jobs))
    active = []
    while pending or active:
        while pending and len(active) < workers:
            n, j = pending.pop(0)
            a, b = mp.Pipe(False)
            p = mp.get_context('fork').Process(target=_child, args=(f, j, b))
            p.start()
            b.close()
            active.append((n, p, a, time.time()))
        for item in list(active):
            n, p, a, t = item
            if a.poll(0.05):
                try:
                    out[n] = json.loads(a.recv())
                except EOFError:
                    out[n] = {'crash': 'process ended (memory?)'}
                p.join()
                active.remove(item)
            elif time.time() - t > limit:
                p.kill()
                p.join()
                out[n] = {'crash': 'time limit of %d s' % limit, 'timeout': True}
                active.remove(item)
            elif not p.is_alive() and not a.poll(0):
                out[n] = {'crash': 'process ended (memory?)'}
                active.remove(item)
    return out


def main():
    kind, prop, outf = sys.argv[1:4]
    only = sys.argv[4].split(',') if len(sys.argv) > 4 else None
    extra = '--extra' in sys.argv
    if only and only[0].startswith('--'):
        only = None
    workers = int(os.environ.get('VP_WORKERS', '5' if kind == 'sym' else '4'))
    limit = 520 if TIER == 'quick' else 7200
    if kind == 'sym':
        from pyvc import loader
        with contextlib.redirect_stdout(io.StringIO()):
            loader.install()
    else:
        with contextlib.redirect_stdout(io.StringIO()):
            import radvel
            import radvel.driver
            import radvel.cli
    hs = load(prop)
    if only:
        hs = [h for h in hs if h.name in only]
    if kind == 'sym':
        res = parallel(sym_one, hs, [h.name for h in hs], limit, workers)
    else:
        res = parallel(conc_one, [(h, extra) for h in hs], [h.name for h in hs], limit, workers)
    with open(outf, 'w') as f:
        json.dump(res, f)


def replay(path):
    """re-run the failing input of a replay file on the real code"""
    d = json.load(open(path))
    hs = [h for h in load(d['property']) if h.name == d['input']['harness']]
    import radvel
    import radvel.driver
    from pyvc import conc
    st, vc, detail = conc.run_one(hs[0], d['input']['seed'], radvel, REPO)
    print(st, json.dumps(detail), json.dumps({a: conc.short(b) for a, b in vc.inputs.items()}))
    return 1 if st == 'fail' else 0


if __name__ == '__main__':
    if sys.argv[1] == 'replay':
        sys.exit(replay(sys.argv[2]))
    main()
