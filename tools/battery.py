"""run checks against a list of edits (bugs: must be caught; refactorings: must stay quiet).
   battery.py SPEC.py [name ..]   SPEC.py: EDITS = [(name, property, 'bug'|'same', [(file, old, new), ..]), ..]"""
import os, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(e):
    name, prop, kind, edits = e
    d = tempfile.mkdtemp(prefix='bat')
    try:
        r = d + '/repo'
        subprocess.run(['cp', '-a', '/repo', r], check=True)
        for f, old, new in edits:
            p = os.path.join(r, f)
            t = open(p).read()
            if t.count(old) != 1:
                return '%-28s NOT MADE: %d occurrences of %r' % (name, t.count(old), old[:60])
            open(p, 'w').write(t.replace(old, new))
        out = []
        for q in prop.split():
            env = dict(os.environ, VP_REPO=r, VP_EVIDENCE=d)
            x = subprocess.run(['timeout', '880', 'python3', 'check.py', q], cwd=HERE, env=env,
                               capture_output=True, text=True)
            v = [l for l in x.stdout.splitlines() if l.startswith('VIOLATION')]
            ok = (x.returncode == 1) if kind == 'bug' else x.returncode == 0
            note = '' if not v else ' nofail' if all(l.endswith('no-failing-input-found') for l in v) else ' input'
            fall = [l for l in x.stdout.splitlines() if 'bounded' in l.lower() and 'unsupported' in l.lower()]
            out.append('%s rc=%d%s %s' % (q, x.returncode, note, 'ok' if ok else '*** ' + kind))
        return '%-28s %s' % (name, '; '.join(out))
    finally:
        subprocess.run(['rm', '-rf', d])


def main():
    g = {}
    exec(open(sys.argv[1]).read(), g)
    only = sys.argv[2:]
    with ThreadPoolExecutor(3) as ex:
        for line in ex.map(run, [e for e in g['EDITS'] if not only or e[0] in only]):
            print(line, flush=True)


main()
