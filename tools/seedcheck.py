"""seedcheck.py [ID ...]: runs the check of each planted bug's property on a copy of /repo with the bug; prints caught/missed."""
import json, os, re, shutil, subprocess, sys, tempfile
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = sys.argv[1:] or sorted(os.listdir(os.path.join(ROOT, 'seeded')))
for sid in ids:
    d = os.path.join(ROOT, 'seeded', sid)
    prop = json.load(open(d + '/meta.json'))['property']
    tmp = tempfile.mkdtemp(prefix='sc', dir='/tmp')
    try:
        r = os.path.join(tmp, 'repo')
        shutil.copytree('/repo', r, symlinks=True)
        a = subprocess.run(['git', 'apply', d + '/patch.diff'], cwd=r, capture_output=True, text=True)
        if a.returncode: print(sid, 'DOES NOT APPLY', a.stderr); continue
        c = subprocess.run(['python3', ROOT + '/check.py', prop], capture_output=True, text=True, env=dict(os.environ, PYDV_REPO=r), timeout=900)
        l = [x for x in c.stdout.splitlines() if 'VIOLATION' in x]
        o = [x for x in c.stdout.splitlines() if 'failed obligation' in x]
        print(sid, prop, 'rc', c.returncode, 'CAUGHT' if c.returncode == 1 and l else 'MISSED', 'input' if l and not l[0].endswith('found') else 'no-input', len(o), 'failed obligations', '|', (o[0][:150] if o else ''), flush=True)
    finally: shutil.rmtree(tmp)
