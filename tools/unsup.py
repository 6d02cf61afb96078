"""run every check (or the ones named) and list the contracts that fell back to a weaker mode"""
import json, os, subprocess, sys, time
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
for i in sys.argv[1:] or ['C%02d' % k for k in (*range(1, 21), 22)]:
    t = time.time()
    r = subprocess.run(['python3', 'check.py', i], cwd=HERE, capture_output=True, text=True)
    print(i, 'rc=%d %ds' % (r.returncode, time.time() - t), flush=True)
    for c in json.load(open(os.path.join(HERE, 'evidence', i + '.json')))['coverage']['contracts']:
        for a in c['attempts']:
            if a['status'] != 'ok' and a['mode'] != 'none':
                print('   ', c['contract'], c['mode'], '|', a['mode'], a['status'], a['why'][:150].replace('\n', ' '), flush=True)
