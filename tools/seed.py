"""make and confirm planted bugs.
   seed.py make SPEC.py   - SPEC.py defines SEEDS = [dict(id, property, edits=[(file, old, new), ..], demo=<python text>, needs, breaks), ..]
   seed.py tests ID ..    - run the repository's tests with the change in a scratch copy
   seed.py check ID ..    - run the property's check against the change (in a scratch copy, VP_REPO)"""
import json, os, shutil, subprocess, sys, tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, 'seeded')
PY = '/opt/venv/bin/python'


def sh(cmd, cwd=None, **kw):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix='seed')
    sh('cp -a /repo %s/repo' % d)
    return d, d + '/repo'


def make(spec):
    g = {}
    exec(open(spec).read(), g)
    only = sys.argv[3:]
    d, r = scratch()
    for s in g['SEEDS']:
        if only and s['id'] not in only:
            continue
        sh('git checkout -q -- .', r)
        bad = None
        for f, old, new in s['edits']:
            t = open(os.path.join(r, f)).read()
            if t.count(old) != 1:
                bad = '%s: %d occurrences of %r' % (f, t.count(old), old)
                break
            open(os.path.join(r, f), 'w').write(t.replace(old, new))
        if bad:
            print(s['id'], 'NOT MADE', bad)
            continue
        out = os.path.join(SEEDED, s['id'])
        os.makedirs(out, exist_ok=True)
        open(out + '/patch.diff', 'w').write(sh('git diff', r).stdout)
        sh('git checkout -q -- .', r)
        open(out + '/demo.py', 'w').write(s['demo'])
        open(out + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: the repository\nexport PYTHONPATH="$PWD" MPLBACKEND=Agg PYTHONDONTWRITEBYTECODE=1\n'
                                          'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump({'property': s['property'], 'needs': s['needs'], 'what_it_breaks': s['breaks']}, open(out + '/meta.json', 'w'), indent=1)
        c = any(f.startswith('src/') for f, _, _ in s['edits'])
        build = lambda: c and sh(PY + ' setup.py build_ext --inplace --force', r)
        clean = sh('bash %s/demo.sh' % out, r)
        sh('git apply %s/patch.diff' % out, r)
        build()
        bug = sh('bash %s/demo.sh' % out, r)
        sh('git checkout -q -- .', r)
        build()
        ok = clean.returncode == 0 and bug.returncode != 0
        print(s['id'], 'ok' if ok else 'BAD', clean.returncode, bug.returncode, (clean.stderr[-600:] if clean.returncode else ''),
              bug.stderr.strip().split('\n')[-1][:150])
    shutil.rmtree(d)


def tests(ids):
    d, r = scratch()
    stable = json.load(open('/opt/vp/BASELINE.json'))
    for i in ids:
        sh('git checkout -q -- .', r)
        a = sh('git apply %s/%s/patch.diff' % (SEEDED, i), r)
        sh(PY + ' setup.py build_ext --inplace --force', r)
        t = sh('export PATH=/opt/venv/bin:$PATH HOME=/root; rm -rf /tmp/HD164922_* /tmp/k2-131_* /tmp/epic203771098_*; MPLBACKEND=Agg PYTHONHASHSEED=0 RADVEL_DATADIR=%s/example_data %s -m pytest radvel -q '
               '-p no:cacheprovider -n 4 --dist loadfile --timeout=300 --show-capture=no' % (r, PY), r)
        print(i, a.returncode, t.stdout.strip().split('\n')[-1], [l for l in t.stdout.split('\n') if l.startswith('FAILED')][:4], flush=True)
    shutil.rmtree(d)


def check(ids):
    d, r = scratch()
    for i in ids:
        sh('git checkout -q -- .', r)
        sh('git apply %s/%s/patch.diff' % (SEEDED, i), r)
        p = json.load(open('%s/%s/meta.json' % (SEEDED, i)))['property']
        c = sh('VP_REPO=%s python3 %s/check.py %s' % (r, HERE, p))
        v = [l for l in c.stdout.split('\n') if l.startswith('VIOLATION')]
        print(i, p, 'exit', c.returncode, (v or c.stdout.strip().split('\n')[-1:] + c.stderr.strip().split('\n')[-1:])[0][:200], flush=True)
    shutil.rmtree(d)


{'make': lambda a: make(a[0]), 'tests': tests, 'check': check}[sys.argv[1]](sys.argv[2:])
