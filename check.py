#!/usr/bin/env python3
"""check.py <property id>: decide one property on /repo's current tree.

Exit 0: every obligation of every contract discharged (or the listed bounded stand-ins passed) and the same contracts
held on the real code for every sampled input.  Exit 1 + VIOLATION line: an obligation failed.
"""
import json
import os
import subprocess
import sys
import tempfile
import time

HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
REPO = os.environ.get('VP_REPO', '/repo')


def env():
    e = dict(os.environ)
    e.pop('PYTHONPATH', None)
    e.update(PYTHONDONTWRITEBYTECODE='1', MPLBACKEND='Agg', RADVEL_DATADIR=os.path.join(REPO, 'example_data'),
             OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1', PYTHONHASHSEED='0', HDF5_USE_FILE_LOCKING='FALSE')
    return e


def start(kind, prop, out, *more):
    return subprocess.Popen([PY, os.path.join(HERE, 'pyvc', 'worker.py'), kind, prop, out] + list(more), env=env(),
                            cwd=tempdir, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)


def finish(p, out, what):
    o, _ = p.communicate()
    if p.returncode != 0 or not os.path.exists(out):
        print('CHECK-ERROR %s: %s' % (what, o.decode(errors='replace')[-3000:]))
        sys.exit(2)
    return json.load(open(out))


def main():
    global tempdir
    prop = sys.argv[1]
    if prop == '--replay':
        tempdir = tempfile.gettempdir()
        sys.exit(subprocess.call([PY, os.path.join(HERE, 'pyvc', 'worker.py'), 'replay', sys.argv[2]], env=env()))
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    evfile = os.path.join(HERE, 'evidence', prop + '.json')
    os.makedirs(os.path.dirname(evfile), exist_ok=True)
    if os.path.exists(evfile):
        os.remove(evfile)
    known = known_findings(prop)
    with tempfile.TemporaryDirectory(prefix='vp_' + prop) as tempdir_:
        tempdir = tempdir_
        os.chmod(tempdir, 0o755)
        so, co = os.path.join(tempdir, 'sym.json'), os.path.join(tempdir, 'conc.json')
        ps, pc = start('sym', prop, so), start('conc', prop, co)
        conc = finish(pc, co, 'concrete evaluation')
        sym = finish(ps, so, 'verifier')
        bad, errors = [], []
        viol = []
        for n, r in conc.items():
            if r.get('crash'):
                if not r.get('timeout'):
                    errors.append('%s: %s' % (n, r['crash']))
                continue
            if r.get('error'):
                errors.append('%s: %s' % (n, r['error']))
            if r.get('fail'):
                viol.append(r['fail'])
        failing = []
        for n, r in sym.items():
            if r.get('crash'):
                r['attempts'] = [{'mode': 'none', 'status': 'unsupported', 'why': r['crash'], 'obligations': [],
                                  'paths': 0, 'assumed': {}, 'loops': [], 'stats': {}, 'wall': 0}]
                r['funcs'] = []
            att = r['attempts'][-1]
            for o in att['obligations']:
                if o['status'] == 'failed':
                    failing.append((n, att['mode'], o))
        seen_h = {v['harness'] for v in viol}
        need = sorted({n for n, _, _ in failing} - seen_h)
        if need:
            # the verifier rejects an obligation: look harder for an input of the real code that shows it
            xo = os.path.join(tempdir, 'extra.json')
            ex = finish(start('conc', prop, xo, ','.join(need), '--extra'), xo, 'search')
            for n, r in ex.items():
                if r.get('fail'):
                    viol.append(r['fail'])
    evidence(prop, tier, seed, sym, conc, failing, viol, errors, t0, evfile)
    lines = []
    status = 0
    shown = set()
    os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    for v in viol:
        kf = match_known(known, v['harness'], v['obligation'])
        if kf:
            shown.add(kf)
            continue
        path = os.path.join(HERE, 'replay', '%s_%s.json' % (prop, v['harness']))
        json.dump({'property': prop, 'input': v, 'how': 'python3 check.py --replay ' + path,
                   'verifier': [o for n, _, o in failing if n == v['harness']][:5]}, open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (prop, path))
        print('  contract %s, obligation "%s": %s\n  inputs %s' % (
            v['harness'], v['obligation'], v['detail'][-1500:], json.dumps(v['inputs'])[:1500]))
        status = 1
    for n in sorted({n for n, _, _ in failing} - {v['harness'] for v in viol}):
        os_ = [(m, o) for q, m, o in failing if q == n]
        os_ = [(m, o) for m, o in os_ if not match_known(known, n, o['name'])]
        if not os_:
            continue
        path = os.path.join(HERE, 'replay', '%s_%s.json' % (prop, n))
        json.dump({'property': prop, 'contract': n, 'failed_obligations': [dict(o, mode=m) for m, o in os_]},
                  open(path, 'w'), indent=1)
        print('  contract %s: obligation "%s" not discharged: %s' % (n, os_[0][1]['name'], os_[0][1]['detail'][:700]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (prop, path))
        status = 1
    for k in known:
        if k['kind'] == 'open':
            print('KNOWN-FINDING: property=%s %s' % (prop, k['text']))
    for l in lines:
        print(l)
    if errors and status == 0:
        print('CHECK-ERROR ' + '\n'.join(errors))
        sys.exit(2)
    if status == 0:
        print('%s: property holds on everything explored (%.0f s)' % (prop, time.time() - t0))
    sys.exit(status)


def known_findings(prop):
    """known_findings.txt: `open: property=C03 contract=<harness> obligation=<text> | description`"""
    out = []
    path = os.path.join(HERE, 'known_findings.txt')
    if not os.path.exists(path):
        return out
    for l in open(path):
        l = l.strip()
        if not l or l.startswith('#'):
            continue
        kind, rest = l.split(':', 1)
        head, _, text = rest.partition('|')
        d = {}
        for w in head.split():
            if '=' in w:
                a, b = w.split('=', 1)
                d[a] = b
        if d.get('property') == prop:
            out.append({'kind': kind.strip(), 'contract': d.get('contract'), 'text': text.strip() or head.strip()})
    return out


def match_known(known, harness, obligation):
    for k in known:
        if k['kind'] == 'open' and k['contract'] == harness:
            return k['text']
    return None


def evidence(prop, tier, seed, sym, conc, failing, viol, errors, t0, evfile):
    obl = disc = 0
    bounded = bdisc = 0
    funcs = {}
    byback = {}
    assumed = set()
    contracts = []
    zcalls = zunk = 0
    ztime = solver = 0.0
    for n, r in sorted(sym.items()):
        att = r['attempts'][-1]
        os_ = att['obligations']
        d = sum(1 for o in os_ if o['status'] == 'discharged')
        mode = att['mode'] if att['status'] == 'ok' else 'evaluated on the real code only'
        if att['status'] == 'ok' and att['mode'] == 'unbounded':
            obl += len(os_)
            disc += d
        elif att['status'] == 'ok':
            bounded += len(os_)
            bdisc += d
        else:
            failed = [o for o in os_ if o['status'] == 'failed']
            obl += len(failed)
        for o in os_:
            if o['status'] == 'discharged':
                byback[o['backend']] = byback.get(o['backend'], 0) + 1
            solver += o['secs']
        zcalls += att['stats'].get('z3_calls', 0)
        zunk += att['stats'].get('z3_unknown', 0)
        ztime += att['stats'].get('z3_time', 0)
        for f in r.get('funcs', []):
            funcs.setdefault(f, []).append('%s (%s)' % (n, mode))
        for a in att['assumed']:
            assumed.add(a)
        c = conc.get(n, {})
        names = {}
        for o in os_:
            k = names.setdefault(o['name'], [0, 0])
            k[0] += 1
            k[1] += o['status'] == 'discharged'
        contracts.append({'contract': n, 'mode': mode, 'paths': att['paths'], 'obligations': len(os_), 'discharged': d,
                          'named_obligations': {k: '%d/%d' % (v[1], v[0]) for k, v in names.items()},
                          'wall_s': round(att['wall'], 2), 'loops_summarised': att['loops'], 'note': r.get('note', ''),
                          'attempts': [{'mode': a['mode'], 'status': a['status'], 'why': a.get('why', '')[:300]}
                                       for a in r['attempts']],
                          'real_code_runs': c.get('runs', 0), 'real_code_distinct': c.get('distinct', 0)})
    samples = [s for c in conc.values() for s in c.get('samples', [])[:1]][:4]
    man = {}
    try:
        man = {c['property']: c for c in json.load(open(os.path.join(HERE, 'MANIFEST.json')))['checks']}
    except Exception:
        pass
    level = man.get(prop, {}).get('level', 'proof')
    trusted = ['pyvc: normal form of real arithmetic with trigonometric functions, powers, exp/log and finite sums (pyvc/nf.py), '
               'path exploration (pyvc/engine.py)', 'z3 ' + z3v(), 'CPython executing the code under test',
               'numpy/scipy contracts in pyvc/npshim.py',
               'machine arithmetic treated as exact real arithmetic (no rounding, overflow, NaN)']
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level,
          'coverage': {'obligations': obl, 'discharged': disc,
                       'checker_cmd': 'python3 check.py ' + prop, 'trusted_base': trusted,
                       'bounded_obligations': bounded, 'bounded_discharged': bdisc,
                       'functions_under_contract': {k: sorted(set(v)) for k, v in sorted(funcs.items())},
                       'discharged_by_backend': byback, 'z3_calls': zcalls, 'z3_unknown': zunk,
                       'z3_seconds': round(ztime, 2), 'solver_seconds': round(solver, 2),
                       'contracts': contracts,
                       'evaluations': sum(c.get('runs', 0) for c in conc.values()),
                       'distinct_nontrivial': sum(c.get('distinct', 0) for c in conc.values()),
                       'rule': 'each evaluation runs one contract on the real code with machine numbers drawn within its '
                               'precondition; non-trivial: distinct inputs on which the precondition held',
                       'samples': samples, 'errors': errors},
          'assumptions': sorted(assumed) + ['contracts assumed of libraries: numpy elementwise functions and reductions, '
                                            'scipy (listed in DESIGN.md)'],
          'wall_s': round(time.time() - t0, 2), 'violations': len(viol) + len({n for n, _, _ in failing})}
    json.dump(ev, open(evfile, 'w'), indent=1)


def z3v():
    try:
        import glob
        return os.path.basename(glob.glob('/opt/veriftools/pyvenv/lib/python3.12/site-packages/z3_solver-*')[0])
    except Exception:
        return ''


if __name__ == '__main__':
    main()
